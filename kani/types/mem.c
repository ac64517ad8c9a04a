/* memcmp as the C standard has it, without a loop for 32-byte operands
   (addresses), so that the unwinding bound of a harness counts the loops of
   the program only. */
typedef unsigned long long u64;
static u64 be(const unsigned char *p)
{
  return (u64)p[0] << 56 | (u64)p[1] << 48 | (u64)p[2] << 40 | (u64)p[3] << 32 |
         (u64)p[4] << 24 | (u64)p[5] << 16 | (u64)p[6] << 8 | (u64)p[7];
}
static int cmp8(const unsigned char *a, const unsigned char *b)
{
  u64 x = be(a), y = be(b);
  return x == y ? 0 : x < y ? -1 : 1;
}
int memcmp(const void *s1, const void *s2, __CPROVER_size_t n)
{
  const unsigned char *a = s1, *b = s2;
  if(n == 32)
  {
    int r = cmp8(a, b);
    if(r) return r;
    r = cmp8(a + 8, b + 8);
    if(r) return r;
    r = cmp8(a + 16, b + 16);
    if(r) return r;
    return cmp8(a + 24, b + 24);
  }
  for(__CPROVER_size_t i = 0; i < n; i++)
    if(a[i] != b[i])
      return (int)a[i] - (int)b[i];
  return 0;
}
