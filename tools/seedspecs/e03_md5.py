id='E03-md5-whole-blocks'; property='E03'
needs='an update that ends exactly at the end of a block of 64 bytes'
breaks='a last full block of an update is kept as if it were a remainder; it is overwritten by what follows'
edits=[('library/Java/Security/MessageDigest/md5.cpp', 'for (; left >= 64; p += 64, left -= 64)', 'for (; left > 64; p += 64, left -= 64)')]
demo='''#include "library/Java/Lang.hpp"
#include "library/Java/Security/MessageDigest/md5.hpp"
#include <cstring>
int main() {
    unsigned char m[200]; for (int i = 0; i < 200; i++) m[i] = (unsigned char) (i * 7 + 1);
    unsigned char whole[16], parts[16];
    md5_state_t s; md5_init(&s); md5_append(&s, m, 130); md5_finish(&s, whole);
    md5_init(&s); md5_append(&s, m, 128); md5_append(&s, m + 128, 2); md5_finish(&s, parts);
    return memcmp(whole, parts, 16) ? 1 : 0;
}
'''
