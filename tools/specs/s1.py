STR = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "global.h"
#include "store.h"
#include "internal.h"
#define CHECK(c) do { if (!(c)) { printf("wrong: %s\n", #c); exit(1); } } while (0)
'''
BV = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "global.h"
#include "bitvector.h"
#include "internal.h"
#define CHECK(c) do { if (!(c)) { printf("wrong: %s\n", #c); exit(1); } } while (0)
'''
SEEDS = [
 dict(id='p01-voff-fastpath', prop='P01', file='c/src/store.c',
  old='''    register off_t res, b;
    register int shift = 7;

    if (is->buf.pos > (is->buf.len - VINT_MAX_LEN)) {''',
  new='''    register off_t res, b;
    register int shift = 7;

    if (is->buf.pos > (is->buf.len - 7)) {''',
  needs='a file offset of more than 56 bits whose encoding straddles the end of the input buffer',
  breaks='a large offset read at the end of the stream buffer picks up stale buffer bytes',
  demo=STR + r'''
int main(void) {
    Store *st = open_ram_store();
    int pad;
    for (pad = 1000; pad < 1030; pad++) {
        OutStream *os = st->new_output(st, "f"); InStream *is; int i; off_t v = 0x7edcba9876543210LL;
        for (i = 0; i < pad; i++) os_write_byte(os, 0x11);
        os_write_voff_t(os, v);
        for (i = 0; i < 300; i++) os_write_byte(os, 0x22);
        os_close(os);
        is = st->open_input(st, "f");
        for (i = 0; i < pad; i++) is_read_byte(is);
        CHECK(is_read_voff_t(is) == v);
        CHECK(is_read_byte(is) == 0x22);
        is_close(is);
    }
    return 0;
}
'''),
 dict(id='p01-skip-vints', prop='P01', file='c/src/store.c',
  old='''    for (; cnt > 0; cnt--) {
        while ((is_read_byte(is) & 0x80) != 0) {
        }
    }''',
  new='''    for (; cnt > 0; cnt--) {
        register int max = 4;
        while ((is_read_byte(is) & 0x80) != 0 && --max > 0) {
        }
    }''',
  needs='skipping a value of at least 2^28 (five encoded bytes)',
  breaks='skipping a five-byte integer leaves its last byte unread, so every following value is misaligned',
  demo=STR + r'''
int main(void) {
    Store *st = open_ram_store(); OutStream *os = st->new_output(st, "f"); InStream *is;
    os_write_vint(os, 7); os_write_vint(os, 0xFEDCBA98u); os_write_vint(os, 300); os_write_vint(os, 12345);
    os_close(os); is = st->open_input(st, "f");
    is_skip_vints(is, 3);
    CHECK(is_read_vint(is) == 12345);
    return 0;
}
'''),
 dict(id='p02-refill-eof', prop='P02', file='c/src/store.c',
  old='''    is->buf.len = last - start;
    if (is->buf.len <= 0) {''',
  new='''    is->buf.len = last - start;
    if (is->buf.len < 0) {''',
  needs='reading a byte exactly at the end of the file',
  breaks='a read at the end of the file returns a stale byte instead of raising',
  demo=STR + r'''
#include "except.h"
int main(void) {
    Store *st = open_ram_store(); OutStream *os = st->new_output(st, "f"); InStream *is; volatile int raised = 0, i;
    for (i = 0; i < 5; i++) os_write_byte(os, i + 1);
    os_close(os); is = st->open_input(st, "f");
    for (i = 0; i < 5; i++) CHECK(is_read_byte(is) == i + 1);
    TRY
        is_read_byte(is);
    XCATCHALL
        HANDLED(); raised = 1;
    XENDTRY
    CHECK(raised);
    return 0;
}
'''),
 dict(id='p05-recount-tail', prop='P05', file='c/include/bitvector.h',
  old='''            case 3: count += frt_count_ones(bv->bits[idx] & 0x00ff0000);''',
  new='''            case 3: count += frt_count_ones(bv->bits[idx] & 0x007f0000);''',
  needs='a recount of a vector whose size leaves 24 to 31 bits in the last word, with bit 23 of that word set',
  breaks='the recounted number of set bits is one short',
  demo=BV + r'''
int main(void) {
    BitVector *bv = bv_new(); int i;
    for (i = 0; i < 60; i++) bv_set(bv, i);
    CHECK(bv->count == 60);
    CHECK(bv_recount(bv) == 60);
    return 0;
}
'''),
]
