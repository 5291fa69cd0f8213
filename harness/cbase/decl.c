enum { A, B = 3, C };
typedef struct S { int a; char b[4], *c; struct S* next; } T;
union U { int i; char c[2]; };
typedef int I;
static int g, *p, arr[3][2];
const char s[] = "text" "more";
int h = -5;
T t;
int f(int x, char* y, ...);
void k(void) { I i = A, j; T* q = &t; q->a = i; (*q).b[1] = 'x'; t.next = q; j = (int)p + sizeof(T) + sizeof t; g = arr[1][j] + h; f(i, "a", j); }
int f(int x, char* y, ...) { va_list v; int r; va_start(v, y); r = va_arg(v, int); va_end(v); return r + x; }
void _start(void) { static char z[9]; int (*fp)(int, char*); fp = f; fp(1, z); k(); }
