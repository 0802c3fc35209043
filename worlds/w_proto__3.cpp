// One part of the protocol's message types (see proto.h).
#include "proto.h"
PROTO_PART(3)
#define P_REQUEST(Q, R, n) proto::AddRequest<mine(__COUNTER__), dap::Q, dap::R>::to(v, n);
#define P_EVENT(E, n) proto::AddEvent<mine(__COUNTER__), dap::E>::to(v, n);
static proto::AddTypes add([](std::vector<proto::Type>& v) {
#include "protocol_table.inc"
});
