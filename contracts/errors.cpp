// Contracts of kio/core/errors.h.
#include "vc.h"
#include <cerrno>
#include <kio/core/errors.h>
using namespace kio;
// the documented table, written down independently of the code's switch
VC_SPEC ErrorCategory table(int e)
{
    using enum ErrorCategory;
    if (e == 0) return Success;
    if (e >= 1000 && e <= 1999) return Uring;
    if (e >= 2000 && e <= 2999) return Serialization;
    if (e >= 3000 && e <= 3999) return Application;
    if (e >= 4000 && e <= 4999) return Tls;
    if (e == EAGAIN || e == ECONNABORTED || e == ECONNRESET || e == ECONNREFUSED || e == EPIPE || e == EFAULT || e == EINVAL || e == ENETDOWN || e == ENETUNREACH ||
        e == ENETRESET || e == EINPROGRESS || e == EISCONN || e == ENOTCONN || e == ENOTSOCK || e == EDESTADDRREQ || e == EMSGSIZE || e == EPROTONOSUPPORT ||
        e == EADDRINUSE || e == EADDRNOTAVAIL || e == ETIMEDOUT || e == EHOSTUNREACH || e == EHOSTDOWN) return Network;
    if (e == ENOENT || e == EACCES || e == EEXIST || e == EISDIR || e == ENOTDIR || e == ENAMETOOLONG || e == EROFS || e == EBADF || e == EIO || e == ENOSPC ||
        e == ESPIPE || e == EFBIG || e == ENOTEMPTY || e == EXDEV) return File;
    if (e == ENOMEM || e == EMFILE || e == ENFILE || e == EDEADLK || e == ENOLCK || e == ENOSYS || e == ECANCELED || e == EOWNERDEAD || e == ENOTRECOVERABLE) return SystemResource;
    if (e == ENODEV || e == ENXIO || e == EBUSY) return Device;
    return Unknown;
}
VC_HARNESS void H_from_errno()
{
    const int e = (int)vc_u32("errno");
    const Error r = Error::from_errno(e);
    vc_assert(r.value == e, "E01: the error number is preserved");
    vc_assert(r.category == table(e), "E01: the category is the documented one");
    vc_assert(CategoryFromErrno(e) == table(e), "E01: the category is the documented one");
    vc_assert(r.is_success() == (e == 0), "E01: only number 0 is success");
    if (r.category == ErrorCategory::Unknown) vc_cover("unknown");
    if (r.category == ErrorCategory::Device) vc_cover("device");
    if (r.category == ErrorCategory::Tls) vc_cover("tls");
}
VC_SPEC Error any(const char*) { return Error((ErrorCategory)(int8_t)vc_u8("cat"), (int)vc_u32("val")); }
VC_HARNESS void H_equality()
{
    const Error a = any("a"), b = any("b");
    const bool same = a.category == b.category && a.value == b.value;
    vc_assert((a == b) == same && (a != b) == !same, "E01: errors are equal exactly when category and number are");
    vc_assert(a.is_success() == (a.category == ErrorCategory::Success), "E01: only the success category is success");
    const Error c = Error::custom(a.category, a.value);
    vc_assert(c.category == a.category && c.value == a.value, "E01: custom() keeps category and number");
    const Error d;
    vc_assert(d.is_success() && d.value == 0, "E01: a default error is success");
    if (same) vc_cover("equal"); else vc_cover("different");
}
VC_SPEC bool same_text(std::string_view s, const char* t, size_t n)
{
    if (s.size() != n) return false;
    bool r = true;
    for (size_t i = 0; i < n; ++i) r &= s[i] == t[i];
    return r;
}
#define IS(C, T) vc_assert(same_text(CategoryToString(ErrorCategory::C), T, sizeof(T) - 1), "E01: category " #C " has its own name")
VC_HARNESS void H_names()
{
    IS(Success, "Success"); IS(Network, "Network"); IS(File, "File"); IS(SystemResource, "SystemResource"); IS(Device, "Device"); IS(Uring, "IOUring");
    IS(Serialization, "Serialization"); IS(Application, "Application"); IS(Tls, "TLS"); IS(Unknown, "Unknown");
    const std::string_view v = CategoryToString((ErrorCategory)(int8_t)vc_u8("cat"));
    vc_assert(v.size() > 0 && v.size() <= 14, "E01: every category value has a name");
    vc_assert(v[0] >= 'A' && v[0] <= 'Z', "E01: every category value has a name");
    vc_cover("named");
}
