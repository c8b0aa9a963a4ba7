ID='F01-socket-zero'; PROPERTY='F01'
EDITS=[('kio/net/socket.h','''                if (fd_ >= 0) ::close(fd_);
                fd_ = std::exchange''','''                if (fd_ > 0) ::close(fd_);
                fd_ = std::exchange''')]
NEEDS='a socket holding descriptor 0 (standard input was closed before) that is assigned over'
BREAKS='descriptor 0 is leaked by move assignment'
DEMO='''#include <kio/net/socket.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <unistd.h>
int main()
{
    ::close(0);
    int a = open("/dev/null", O_RDONLY), b = open("/dev/null", O_RDONLY);
    if (a != 0) return 2;
    kio::net::Socket s(a), t(b);
    s = std::move(t);
    if (fcntl(a, F_GETFD) != -1) return 1;
    return s.get() == b && fcntl(b, F_GETFD) != -1 ? 0 : 1;
}
'''
