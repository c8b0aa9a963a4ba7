ID='M01-label-value'; PROPERTY='M01'
EDITS=[('kio/metrics/utils.h',"            if (c == '\\\\' || c == '\"' || c == '\\n') {\n                needs_escape = true;","            if (c == '\"' || c == '\\n') {\n                needs_escape = true;")]
NEEDS='a label value with a backslash but neither a quote nor a newline'
BREAKS='such a value is exported unescaped, so a trailing backslash swallows the closing quote'
DEMO='''#include <kio/metrics/utils.h>
#include <string>
static std::string esc(const std::string& v) { std::string o; for (char c : v) { if (c == '\\\\') o += "\\\\\\\\"; else if (c == '"') o += "\\\\\\""; else if (c == '\\n') o += "\\\\n"; else o += c; } return o; }
int main()
{
    for (const char* v : {"", "plain", "C:\\\\tmp", "a\\"b", "x\\ny", "end\\\\", "\\\\\\"\\n"}) if (kio::SanitizeLabelValue(v) != esc(v)) return 1;
    return kio::SanitizeLabelKey("9a-b") == "_a_b" ? 0 : 1;
}
'''
