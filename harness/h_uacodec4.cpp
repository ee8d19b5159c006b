#include "uacodec.hpp"

void uaTypes4(std::vector<TypeOps>& v)
{
    UA_TYPE(UaOpenSecureChannelReq)
    UA_TYPE(UaOpenSecureChannelRsp)
    UA_TYPE(UaChannelSecurityToken)
    UA_TYPE(UaCloseSecureChannelReq)
    UA_TYPE(UaCloseSecureChannelRsp)
    UA_TYPE(UaApplicationDescription)
    UA_TYPE(UaUserTokenPolicy)
    UA_TYPE(UaEndpointDescription)
    UA_TYPE(UaGetEndpointsReq)
    UA_TYPE(UaGetEndpointsRsp)
    UA_TYPE(UaSignatureData)
}
