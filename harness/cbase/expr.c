int a;
char* p;
int b[4];
int f(int x, int y)
{
    unsigned u = 3, v;
    x = y = a;
    a = (x + y) * 2 - x / 3 % 4 << 1 >> 2;
    v = u < 5 && x <= y || a > 1 && b[1] >= 2;
    a = !x ? ~y : -a;
    p = (char*)b + 1;
    *p++ = 'q';
    b[a & 3] ^= x | y & 6;
    x += 1, y -= 2, a *= 3, a /= 2, a %= 5, a &= 7, a |= 8, a <<= 1, a >>= 2;
    --*p;
    ++b[x++];
    return f(a, f(x, y)) != (x == y) ? sizeof(char) : sizeof b;
}
void _start(void) { f(1, 2); f('a', 0x10); }
