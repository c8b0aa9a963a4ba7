ID='E01-errno-group'; PROPERTY='E01'
EDITS=[('kio/core/errors.h','''            case EFBIG:
            case ENOTEMPTY:''','''            case EFBIG:
            case ENOLCK:
            case ENOTEMPTY:'''),('kio/core/errors.h','''            case EDEADLK:
            case ENOLCK:
''','''            case EDEADLK:
''')]
NEEDS='an error with errno ENOLCK'
BREAKS='ENOLCK is reported as a file error instead of a system resource error'
DEMO='''#include <kio/core/errors.h>
int main()
{
    using namespace kio;
    for (int e : {ENOMEM, EMFILE, ENFILE, EDEADLK, ENOLCK, ENOSYS, ECANCELED}) if (Error::from_errno(e).category != ErrorCategory::SystemResource) return 1;
    return Error::from_errno(ENOSPC).category == ErrorCategory::File && Error::from_errno(ENOLCK).value == ENOLCK ? 0 : 1;
}
'''
