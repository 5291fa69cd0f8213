enum { E0, E1 = 0x1F, E2 = 017, };
typedef struct S { int a; char b[3]; struct S* n; } T;
union U { int i; char c[2]; };
static int sv;
const char str[] = "a\"b" "\x41\\\n/*no*/ // no";
char buf[12];
int f(int x, const char* s, ...)
{
    va_list v;
    va_start(v, s);
    int r = va_arg(v, int);
    va_end(v);
    return r + x;
}
void _start(void)
{
    struct S s; T* p; union U u; unsigned q; unsigned char uc; static int st;
    int i = 'x', j = '\'';
    p = &s; p->a = -1; (*p).b[1] = 'q'; s.n = (struct S*)0; u.i = E1;
    q = sizeof(T) + sizeof(int); uc = 255;
    for (i = 0; i < 10; ++i) { if (i == 3) continue; else if (i >= 8) break; j += i; }
    while (j-- > 0 && !sv) { j /= 2; }
    do { j = j ? ~j : +j; } while (j != 0 || i <= 0);
    i <<= 2; i >>= 1; i |= 4; i &= 0xFF; i ^= 3; i %= 7; i *= 2; i -= 1;
    i = i << 1 >> 1 | 4 & 6 ^ 1; i = (i++ - --j) * 3 / 2 % 5 > 1;
    switch (i) { case 0: case E2: sv = 1; break; case -1: goto out; default: st = f(1, "%d", 2, str[0]), ++st; }
out:
    buf[i] = *(str + 1);
    _emit 0xB8 _emit 0x00 _emit 0x4C _emit 0xCD _emit 0x21
    return;
}
