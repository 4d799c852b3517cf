// An independent reader of the tar format.
typedef struct { char name[101]; int64_t off, len; char type; bool zero, sum_ok, sum_bad, size_ok; } TRec; // sum_bad: no reading of the field gives the sum
static bool t_octal(const uint8_t *f, int n, int64_t *v) { int i = 0; *v = 0; while (i < n && f[i] == ' ') i++; int d = 0; for (; i < n && f[i] >= '0' && f[i] <= '7'; i++, d++) *v = *v * 8 + (f[i] - '0'); return d && (i == n || f[i] == 0 || f[i] == ' '); }
static void t_parse(const uint8_t *b, int64_t pos, TRec *r) { // b: 512 bytes
  memset(r, 0, sizeof *r); r->zero = true; uint32_t sum = 0; for (int i = 0; i < 512; i++) { if (b[i]) r->zero = false; sum += i >= 148 && i < 156 ? ' ' : b[i]; }
  memcpy(r->name, b, 100); int64_t s; bool so = t_octal(b + 148, 8, &s); r->sum_ok = so && s == sum; r->sum_bad = true; for (int i = 148; i < 156; i++) { int64_t v = 0; int j = i; while (j < 156 && b[j] >= '0' && b[j] <= '7') v = v * 8 + b[j++] - '0'; if (j > i && v == sum) r->sum_bad = false; } r->size_ok = t_octal(b + 124, 12, &r->len); r->type = (char)b[156]; r->off = pos + 512; }
static void t_sum(uint8_t *b) { uint32_t sum = 0; for (int i = 0; i < 512; i++) sum += i >= 148 && i < 156 ? ' ' : b[i]; snprintf((char *)b + 148, 8, "%06o", sum); b[155] = ' '; }
static int64_t t_pad(int64_t n) { return (n + 511) / 512 * 512; }
