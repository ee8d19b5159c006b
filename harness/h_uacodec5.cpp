#include "uacodec.hpp"

void uaTypes5(std::vector<TypeOps>& v)
{
    UA_TYPE(UaCreateSessionReq)
    UA_TYPE(UaCreateSessionRsp)
    UA_TYPE(UaActivateSessionReq)
    UA_TYPE(UaActivateSessionRsp)
    UA_TYPE(UaCloseSessionReq)
    UA_TYPE(UaCloseSessionRsp)
    UA_TYPE(ReadValueId)
    UA_TYPE(UaReadReq)
    UA_TYPE(UaReadRsp)
}
