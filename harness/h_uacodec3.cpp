#include "uacodec.hpp"

void uaTypes3(std::vector<TypeOps>& v)
{
    UA_TYPE(MessageHeader)
    UA_TYPE(HelloMessage)
    UA_TYPE(AcknowledgeMessage)
    UA_TYPE(ErrorMessage)
    UA_TYPE(ReverseHelloMessage)
    UA_TYPE(UaMessageHeader)
    UA_TYPE(UaSecurityHeader)
    UA_TYPE(UaSecurityTokenHeader)
    UA_TYPE(UaSequenceHeader)
    UA_TYPE(UaRequestHeader)
    UA_TYPE(UaResponseHeader)
}
