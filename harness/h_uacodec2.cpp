#include "uacodec.hpp"

void uaTypes2(std::vector<TypeOps>& v)
{
    UA_TYPE(std::vector<Boolean>)
    UA_TYPE(std::vector<Byte>)
    UA_TYPE(std::vector<UInt32>)
    UA_TYPE(std::vector<Int64>)
    UA_TYPE(std::vector<Double>)
    UA_TYPE(std::vector<String>)
    UA_TYPE(std::vector<NodeId>)
    UA_TYPE(std::vector<ExpandedNodeId>)
    UA_TYPE(std::vector<LocalizedText>)
    UA_TYPE(std::vector<ExtensionObject>)
    UA_TYPE(std::vector<DataValue>)
    UA_TYPE(std::vector<DiagnosticInfo>)
    UA_TYPE(std::vector<StatusCode>)
    UA_TYPE(std::vector<Guid>)
}
