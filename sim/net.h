// World-side access to the simulated network.
#ifndef SIM_NET_H
#define SIM_NET_H
#include <stddef.h>
#include <stdint.h>
namespace sim {
void net_config(size_t bufsize, uint64_t latency_ns);
size_t net_open_fds();
size_t net_live_addrinfos();
bool net_reset_connection(int port);   // resets the newest live connection
int net_listeners();
void net_strict(bool);
void net_fd_base(int lowest);          // descriptor numbers start here (600..2000)
}  // namespace sim
#endif
