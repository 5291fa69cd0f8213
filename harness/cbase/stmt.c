int x;
int y;
void f(int n)
{
    int i;
    if (n) x = 1; else { y = 2; }
    for (i = 0; i < n; ++i) { if (i == 2) continue; x += i; if (x > 9) break; }
    for (;;) break;
    while (n-- > 0) y = y ? x : -x;
    do { --x; } while (x > 0 && y);
    switch (n) { case 1: x = 1; break; case 5: case 'b': { y = 1; } default: x = y; }
again:
    if (x) goto again;
    while (1) { switch (x) { case 2: continue; } if (x) goto out; }
out:
    ;
    _emit 0x90 _emit 0x90
    return;
}
enum { A = 7 };
void _start(void) { f(3); f(x), f(y); { int x; x = 1; { char x; x = 2; } } return; }
