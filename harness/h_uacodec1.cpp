#include "uacodec.hpp"

void uaTypes1(std::vector<TypeOps>& v)
{
    UA_TYPE(Boolean)
    UA_TYPE(SByte)
    UA_TYPE(Byte)
    UA_TYPE(Int16)
    UA_TYPE(UInt16)
    UA_TYPE(Int32)
    UA_TYPE(UInt32)
    UA_TYPE(Int64)
    UA_TYPE(UInt64)
    UA_TYPE(Float)
    UA_TYPE(Double)
    UA_TYPE(String)
    UA_TYPE(DateTime)
    UA_TYPE(Guid)
    UA_TYPE(ByteString)
    UA_TYPE(NodeId)
    UA_TYPE(StatusCode)
    UA_TYPE(DiagnosticInfo)
    UA_TYPE(QualifiedName)
    UA_TYPE(LocalizedText)
    UA_TYPE(ExpandedNodeId)
    UA_TYPE(ExtensionObject)
    UA_TYPE(DataValue)
    UA_TYPE(Variant)
}
