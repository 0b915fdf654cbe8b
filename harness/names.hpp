// Tag and attribute names used in HTML jobs (mirrored by HTML_NAMES in lib/streams.py).
#pragma once
struct Html_Names {
    const char* tag;
    const char* attr;
};
inline const Html_Names html_names[] = {
    { "b", "x" },
    { "span", "class" },
    { "h-", "data-h" },
    { "a:b-c_d", "A_1" },
    { "verylongtagnameverylongtagnameverylongtagname", "data-very-long-attribute-name-very-long-attribute-name" },
    { "\xC3\xA9", "&<>" },
};
