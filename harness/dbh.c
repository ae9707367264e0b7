/* Line-driven exerciser of the database layer: every operation prints one JSON object. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "Db/dballoc.h"
#ifndef USE_REASONER
#define USE_REASONER
#endif
void *wg_attach_local_database_with_kb(gint size, void *kb);
#include "Db/dbapi.h"
#include "Db/indexapi.h"
#include "Db/dbmem.h"
#include "Db/dbdata.h"
#include "Db/dbcompare.h"
#include "Db/dbindex.h"
#include "Db/dbhash.h"
#include "Db/dbdump.h"

#define MAXH 20000
static void *db, *kbdb;
static struct { gint off; long n; int kind; int live; unsigned seed; } H[MAXH]; /* kind 0 raw, 1 record, 2.. fixed length */
static long nh;
static gint V[MAXH]; static long nv; static char *EV[MAXH];
static struct snap { char name[300]; long n; char *live; } SN[400]; static int nsn;
static struct snap *snap_of(char *f) { for (int i = nsn - 1; i >= 0; i--) if (!strcmp(SN[i].name, f)) return &SN[i]; return NULL; }
static db_area_header *area(int k) {
  db_memsegment_header *h = dbmemsegh(db);
  switch (k) {
    case 2: return &h->listcell_area_header; case 3: return &h->shortstr_area_header;
    case 4: return &h->word_area_header; case 5: return &h->doubleword_area_header;
    case 6: return &h->tnode_area_header; default: return &h->datarec_area_header;
  }
}
static long words(long h) { return H[h].kind < 2 ? H[h].n : area(H[h].kind)->objlength / (long)sizeof(gint); }
static gint pat(long h, long i) { unsigned long x = (H[h].seed * 2654435761u) ^ (i * 40503u); return H[h].kind == 1 ? wg_encode_int(db, (gint)(x & 0xfffff)) : (gint)(x * 0x9E3779B97F4A7C15ul); }
static long segsize; /* as given when the segment was made */
static long area_end(void *d) { return segsize; }
static long first(long h) { return H[h].kind == 0 ? 1 : H[h].kind == 1 ? RECORD_HEADER_GINTS : 0; }
static void fill(long h) { for (long i = first(h); i < words(h); i++) dbstore(db, H[h].off + i * sizeof(gint), pat(h, i)); }
static int intact(long h) {
  for (long i = first(h); i < words(h); i++) if (dbfetch(db, H[h].off + i * sizeof(gint)) != pat(h, i)) return 0;
  return 1;
}
static char *unhex(char *s, long *len) {
  static char bufs[4][200000]; static int b; char *r = bufs[b = (b + 1) % 4]; long n = 0; unsigned x;
  if (!strcmp(s, "-")) s = "";
  while (s[0] && s[1] && sscanf(s, "%2x", &x) == 1) { r[n++] = (char)x; s += 2; }
  r[n] = 0; if (len) *len = n; return r;
}
static void hex(const char *s, long n) { for (long i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]); }
static void hexz(const char *s) { if (s) hex(s, strlen(s)); else printf("-"); }
static gint encode(char t, char *a, char *b) {
  long n;
  switch (t) {
    case 'n': return wg_encode_null(db, NULL);
    case 'i': return wg_encode_int(db, (gint)strtoll(a, NULL, 10));
    case 'd': return wg_encode_double(db, strtod(a, NULL));
    case 'c': return wg_encode_char(db, (char)atoi(a));
    case 'f': return wg_encode_fixpoint(db, strtod(a, NULL));
    case 'D': return wg_encode_date(db, atoi(a));
    case 'T': return wg_encode_time(db, atoi(a));
    case 'v': return wg_encode_var(db, (gint)strtoll(a, NULL, 10));
    case 's': { char *x = unhex(a, NULL); return wg_encode_str(db, x, strcmp(b, "_") ? unhex(b, NULL) : NULL); }
    case 'u': { char *x = unhex(a, NULL); return wg_encode_uri(db, x, strcmp(b, "_") ? unhex(b, NULL) : NULL); }
    case 'x': { char *x = unhex(a, NULL); return wg_encode_xmlliteral(db, x, unhex(b, NULL)); }
    case 'a': return wg_encode_anonconst(db, unhex(a, NULL));
    case 'b': { char *x = unhex(a, &n); return wg_encode_blob(db, x, unhex(b, NULL), n); }
  }
  return WG_ILLEGAL;
}
static void show(gint e) {
  void *dd = kbdb ? kbdb : db;   /* with a knowledge base attached encodings are relative to it */
  gint t = wg_get_encoded_type(dd, e);
  printf("\"type\":%ld,\"val\":\"", (long)t);
  switch (t) {
    case WG_NULLTYPE: printf("null"); break;
    case WG_INTTYPE: printf("%lld", (long long)wg_decode_int(dd, e)); break;
    case WG_DOUBLETYPE: printf("%.17g", wg_decode_double(dd, e)); break;
    case WG_CHARTYPE: printf("%d", wg_decode_char(dd, e)); break;
    case WG_FIXPOINTTYPE: printf("%.4f", wg_decode_fixpoint(dd, e)); break;
    case WG_DATETYPE: printf("%d", wg_decode_date(dd, e)); break;
    case WG_TIMETYPE: printf("%d", wg_decode_time(dd, e)); break;
    case WG_VARTYPE: printf("%lld", (long long)wg_decode_var(dd, e)); break;
    case WG_STRTYPE: hexz(wg_decode_str(dd, e)); printf("\",\"ext\":\""); { char *x = wg_decode_str_lang(dd, e); if (x) hexz(x); else printf("_"); }
      printf("\",\"len\":%ld,\"dummy\":\"", (long)wg_decode_str_len(dd, e)); break;
    case WG_URITYPE: hexz(wg_decode_uri(dd, e)); printf("\",\"ext\":\""); { char *x = wg_decode_uri_prefix(dd, e); if (x) hexz(x); else printf("_"); }
      printf("\",\"len\":%ld,\"dummy\":\"", (long)wg_decode_uri_len(dd, e)); break;
    case WG_XMLLITERALTYPE: hexz(wg_decode_xmlliteral(dd, e)); printf("\",\"ext\":\""); hexz(wg_decode_xmlliteral_xsdtype(dd, e));
      printf("\",\"len\":%ld,\"dummy\":\"", (long)wg_decode_xmlliteral_len(dd, e)); break;
    case WG_ANONCONSTTYPE: hexz(wg_decode_anonconst(dd, e)); break;
    case WG_BLOBTYPE: { long n = wg_decode_blob_len(dd, e); hex(wg_decode_blob(dd, e), n); printf("\",\"ext\":\""); hexz(wg_decode_blob_type(dd, e));
      printf("\",\"len\":%ld,\"dummy\":\"", n); break; }
  }
  printf("\"");
}
static long handle_of(void *rec) { gint o = rec ? ptrtooffset(db, rec) : 0; for (long h = 0; h < nh; h++) if (H[h].live && H[h].off == o) return h; return -1; }

int main(int argc, char **argv) {
  static char line[450000]; static char *tok[2000];
  long size = argc > 1 ? atol(argv[1]) : 10000000;
  if (!getenv("DBH_ERR")) freopen("/dev/null", "w", stderr);
  db = wg_attach_local_database(segsize = size);
  if (!db) { printf("{\"op\":\"attach\",\"ok\":0}\n"); return 3; }
  db_memsegment_header *hd = dbmemsegh(db);
  printf("{\"op\":\"attach\",\"size\":%ld,\"free\":%ld}\n", (long)hd->size, (long)wg_database_freesize(db));
  while (fgets(line, sizeof line, stdin)) {
    int n = 0; for (char *p = strtok(line, " \n"); p && n < 2000; p = strtok(NULL, " \n")) tok[n++] = p;
    if (!n) continue;
    switch (tok[0][0]) {
      case 'A': { long k = atol(tok[1]); gint o = wg_alloc_gints(db, area(0), k); long h = nh++; H[h].live = 0;
        if (o) { H[h].off = o; H[h].n = k; H[h].kind = 0; H[h].live = 1; H[h].seed = (unsigned)nh * 7919u; fill(h); }
        printf("{\"op\":\"alloc\",\"h\":%ld,\"n\":%ld,\"off\":%ld,\"free\":%ld}\n", h, k * (long)sizeof(gint), (long)o, (long)wg_database_freesize(db)); break; }
      case 'R': { long k = atol(tok[1]); void *r = wg_create_record(db, k); long h = nh++; gint o = 0; H[h].live = 0;
        if (r) { o = ptrtooffset(db, r); H[h].off = o; H[h].n = k + RECORD_HEADER_GINTS; H[h].kind = 1; H[h].live = 1; H[h].seed = (unsigned)nh * 7919u;
          for (long i = 0; i < k; i++) { gint v = pat(h, i + RECORD_HEADER_GINTS); wg_set_new_field(db, r, i, v); } }
        printf("{\"op\":\"alloc\",\"h\":%ld,\"n\":%ld,\"off\":%ld,\"free\":%ld}\n", h, (k + RECORD_HEADER_GINTS) * (long)sizeof(gint), (long)o, (long)wg_database_freesize(db)); break; }
      case 'X': { int k = atoi(tok[1]); gint o = wg_alloc_fixlen_object(db, area(k)); long h = nh++; H[h].live = 0;
        if (o) { H[h].off = o; H[h].kind = k; H[h].live = 1; H[h].seed = (unsigned)nh * 7919u; fill(h); }
        printf("{\"op\":\"alloc\",\"h\":%ld,\"n\":%ld,\"off\":%ld,\"free\":%ld}\n", h, (long)area(k)->objlength, (long)o, (long)wg_database_freesize(db)); break; }
      case 'F': { long h = atol(tok[1]); gint rc = 0;
        if (!H[h].live) { printf("{\"op\":\"skip\"}\n"); break; }
        if (H[h].kind == 0) rc = wg_free_object(db, area(0), H[h].off);
        else if (H[h].kind == 1) rc = wg_delete_record(db, offsettoptr(db, H[h].off));
        else switch (H[h].kind) { case 2: wg_free_listcell(db, H[h].off); break; case 3: wg_free_shortstr(db, H[h].off); break;
          case 4: wg_free_word(db, H[h].off); break; case 5: wg_free_doubleword(db, H[h].off); break;
          case 6: wg_free_tnode(db, H[h].off); break; }
        H[h].live = 0;
        printf("{\"op\":\"free\",\"h\":%ld,\"rc\":%ld}\n", h, (long)rc); break; }
      case 'C': { printf("{\"op\":\"check\",\"bad\":["); int f = 1;
        for (long h = 0; h < nh; h++) if (H[h].live && !intact(h)) { printf(f ? "%ld" : ",%ld", h); f = 0; }
        printf("]}\n"); break; }
      case 'S': { printf("{\"op\":\"scan\",\"offs\":["); int f = 1; long c = 0;
        for (void *r = wg_get_first_raw_record(db); r && c < 100000; r = wg_get_next_raw_record(db, r), c++) { printf(f ? "%ld" : ",%ld", (long)ptrtooffset(db, r)); f = 0; }
        printf("]}\n"); break; }
      case 'E': { gint e = encode(tok[1][0], n > 2 ? tok[2] : "", n > 3 ? tok[3] : "_"); long v = nv++; V[v] = e; EV[v] = malloc(3000); snprintf(EV[v], 3000, "E %s %.2000s %.900s", tok[1], n > 2 ? tok[2] : "", n > 3 ? tok[3] : "");
        printf("{\"op\":\"enc\",\"v\":%ld,\"e\":\"%llx\",", v, (unsigned long long)e); if (e == WG_ILLEGAL) printf("\"type\":-1,\"val\":\"\""); else show(e); printf("}\n"); break; }
      case 'G': { long v = atol(tok[1]); printf("{\"op\":\"dec\",\"v\":%ld,", v); show(V[v]); printf("}\n"); break; }
      case 'M': { gint a = V[atol(tok[1])], b = V[atol(tok[2])];
        printf("{\"op\":\"cmp\",\"a\":%s,\"b\":%s,\"res\":%ld}\n", tok[1], tok[2], a == b ? 0L : (long)(wg_compare(kbdb ? kbdb : db, a, b, 3) == WG_EQUAL ? 0 : wg_compare(kbdb ? kbdb : db, a, b, 3) == WG_LESSTHAN ? -1 : 1)); break; }
      case 'r': { long k = n - 1; void *r = wg_create_record(db, k); long h = -1;   /* record of encoded values */
        if (r) { h = nh++; H[h].off = ptrtooffset(db, r); H[h].n = k + RECORD_HEADER_GINTS; H[h].kind = 7; H[h].live = 1;
          for (long i = 0; i < k; i++) wg_set_new_field(db, r, i, V[atol(tok[i + 1])]);
          wg_index_add_rec(db, r); }
        printf("{\"op\":\"rec\",\"h\":%ld}\n", h); break; }
      case 'd': { long h = atol(tok[1]); if (h >= nh || !H[h].live) { printf("{\"op\":\"skip\"}\n"); break; } gint rc = wg_delete_record(db, offsettoptr(db, H[h].off)); H[h].live = 0;
        printf("{\"op\":\"del\",\"h\":%ld,\"rc\":%ld}\n", h, (long)rc); break; }
      case 'I': { /* I type(T/H) ncols cols.. [m v..]  : create an index, with match template values (-1 wildcard) */
        int t = tok[1][0] == 'T' ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH; int nc = atoi(tok[2]); gint cols[16], m[32]; int ml = 0;
        for (int i = 0; i < nc; i++) cols[i] = atol(tok[3 + i]);
        for (int i = 3 + nc; i < n; i++) { long v = atol(tok[i]); m[ml] = v < 0 ? wg_encode_var(db, ml) : V[v]; ml++; }
        gint rc = wg_create_multi_index(db, cols, nc, t, ml ? m : NULL, ml);
        printf("{\"op\":\"index\",\"rc\":%ld,\"id\":%ld}\n", (long)rc, rc ? -1L : (long)wg_multi_column_to_index_id(db, cols, nc, t, ml ? m : NULL, ml)); break; }
      case 'P': { gint cols[16]; int t = tok[1][0] == 'T' ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH; int nc = atoi(tok[2]);
        for (int i = 0; i < nc; i++) cols[i] = atol(tok[3 + i]);
        gint id = wg_multi_column_to_index_id(db, cols, nc, t, NULL, 0); gint rc = id > 0 ? wg_drop_index(db, id) : -9;
        printf("{\"op\":\"drop\",\"rc\":%ld}\n", (long)rc); break; }
      case 'Q': { /* Q way limit nargs (col cond v)* [m v..] : way q query, f find_record chain, s query over match record */
        int na = atoi(tok[3]); wg_query_arg args[16]; gint m[32]; int ml = 0; long lim = atol(tok[2]);
        for (int i = 0; i < na; i++) { args[i].column = atol(tok[4 + 3 * i]); args[i].cond = atol(tok[5 + 3 * i]); args[i].value = V[atol(tok[6 + 3 * i])]; }
        for (int i = 4 + 3 * na; i < n; i++) { long v = atol(tok[i]); m[ml] = v < 0 ? wg_encode_var(db, ml) : V[v]; ml++; }
        printf("{\"op\":\"query\",\"rows\":["); int f = 1; long c = 0;
        if (tok[1][0] == 'f') {
          void *r = NULL;
          while ((r = wg_find_record(db, args[0].column, args[0].cond, args[0].value, r)) && c++ < 5000) { printf(f ? "%ld" : ",%ld", handle_of(r)); f = 0; }
          printf("]}\n");
        } else {
          wg_query *q = lim ? wg_make_query_rc(db, ml ? m : NULL, ml, na ? args : NULL, na, lim) : wg_make_query(db, ml ? m : NULL, ml, na ? args : NULL, na);
          if (!q) { printf("-2]}\n"); break; }
          void *r; int qt = (int)q->qtype;
          while ((r = wg_fetch(db, q)) && c++ < 5000) { printf(f ? "%ld" : ",%ld", handle_of(r)); f = 0; }
          wg_free_query(db, q);
          printf("],\"qt\":%d}\n", qt);
        }
        break; }
      case 'K': { /* hash index lookup: K ncols (col v)* */
        int nc = atoi(tok[1]); gint cols[16], vals[16];
        for (int i = 0; i < nc; i++) { cols[i] = atol(tok[2 + 2 * i]); vals[i] = V[atol(tok[3 + 2 * i])]; }
        gint id = wg_multi_column_to_index_id(db, cols, nc, WG_INDEX_TYPE_HASH, NULL, 0);
        gint l = id > 0 ? wg_search_hash(db, id, vals, nc) : -1; int f = 1;
        printf("{\"op\":\"hash\",\"id\":%ld,\"rows\":[", (long)id);
        while (l > 0) { gcell *c = (gcell *)offsettoptr(db, l); printf(f ? "%ld" : ",%ld", handle_of(offsettoptr(db, c->car))); f = 0; l = c->cdr; }
        printf("]}\n"); break; }
      case 'Z': { kbdb = db; db = wg_attach_local_database_with_kb(atol(tok[1]), kbdb); printf("{\"op\":\"attachkb\",\"ok\":%d}\n", db != NULL); if (!db) return 3; break; }
      case 'W': { gint rc = wg_dump(db, tok[1]); if (nsn < 400) { struct snap *s = &SN[nsn++]; strcpy(s->name, tok[1]); s->n = nh; s->live = malloc(nh + 1); for (long h = 0; h < nh; h++) s->live[h] = H[h].live; } printf("{\"op\":\"dump\",\"rc\":%ld}\n", (long)rc); break; }
      case 'L': { FILE *sf = fopen(tok[1], "rb"); long fl = 0; if (sf) { fseek(sf, 0, SEEK_END); fl = ftell(sf); fclose(sf); }
        int fits = fl <= (long)dbmemsegh(db)->size; gint rc = wg_import_dump(db, tok[1]); printf("{\"op\":\"load\",\"rc\":%ld,\"fits\":%s}\n", (long)rc, fits ? "true" : "false");
        struct snap *s = snap_of(tok[1]);
        if (!rc && s) { for (long h = 0; h < nh; h++) H[h].live = h < s->n && s->live[h];   /* the same records are there again */
          for (long v = 0; v < nv; v++) { long a = 0; char b[3000]; strcpy(b, EV[v]); char *q[4] = {0}; for (char *p = strtok(b, " \n"); p && a < 4; p = strtok(NULL, " \n")) q[a++] = p;
            V[v] = encode(q[1][0], a > 2 ? q[2] : "", a > 3 ? q[3] : "_"); } }
        break; }
      case 'N': { if (n > 2) { FILE *sf = fopen(tok[2], "rb"); fseek(sf, 0, SEEK_END); sprintf(tok[1] = malloc(30), "%ld", ftell(sf) + atol(tok[1])); fclose(sf); }
        wg_delete_local_database(db); db = wg_attach_local_database(segsize = atol(tok[1])); for (long h = 0; h < nh; h++) H[h].live = 0;
        printf("{\"op\":\"fresh\"}\n"); if (!db) return 3; break; }
      case 'J': { /* fill the segment up with records */
        db_memsegment_header *m = dbmemsegh(db); long room = m->size - m->free, used = 0; int inside = 1; char *end = (char *)dbmemseg(db) + area_end(db); long k = atol(tok[1]);
        for (;;) { void *r = wg_create_record(db, k); if (!r) break; used += (k + RECORD_HEADER_GINTS) * (long)sizeof(gint);
          if ((char *)r < (char *)dbmemseg(db) || (char *)r + (k + RECORD_HEADER_GINTS) * (long)sizeof(gint) > end) { inside = 0; break; } }
        printf("{\"op\":\"fill\",\"inside\":%s,\"used\":%ld,\"room\":%ld}\n", inside ? "true" : "false", used / 1000, room / 1000); break; }
      case 'O': { /* live records, as handles, in scan order */
        printf("{\"op\":\"rows\",\"rows\":["); int f = 1;
        for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) { printf(f ? "%ld" : ",%ld", handle_of(r)); f = 0; }
        printf("]}\n"); break; }
      case 'Y': { /* Y src dst how arg: copy; 1 flip a bit, 2 cut off bytes, 3 append bytes */
        FILE *f = fopen(tok[1], "rb"); static unsigned char *buf; if (!buf) buf = malloc(40000000); long len = f ? (long)fread(buf, 1, 30000000, f) : -1; if (f) fclose(f);
        long arg = atol(tok[4]); int how = atoi(tok[3]);
        if (how == 1 && len > 0) { long b = arg % (len * 8); buf[b / 8] ^= 1 << (b % 8); } else if (how == 2) len = len > arg ? len - arg : 0; else if (how == 3) { memset(buf + len, 0, arg); len += arg; }
        f = fopen(tok[2], "wb"); fwrite(buf, 1, len, f); fclose(f);
        struct snap *s = snap_of(tok[1]); if (s && nsn < 400) { SN[nsn] = *s; strcpy(SN[nsn].name, tok[2]); nsn++; }
        printf("{\"op\":\"copy\"}\n"); break; }
      case 'U': { gint a = 0, b = 0; gint rc = wg_check_dump(db, tok[1], &a, &b); printf("{\"op\":\"checkdump\",\"rc\":%ld,\"min\":%ld,\"max\":%ld}\n", (long)rc, (long)a, (long)b); break; }
      case 'B': { /* contents: every data record in order, as lists of decoded fields */
        printf("{\"op\":\"contents\",\"recs\":["); int f = 1;
        for (void *r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) {
          printf(f ? "[" : ",["); f = 0; long k = wg_get_record_len(db, r);
          for (long i = 0; i < k; i++) { printf(i ? ",{" : "{"); show(wg_get_field(db, r, i)); printf("}"); }
          printf("]"); }
        printf("]}\n"); break; }
      case 'g': { /* integer hash table: g + k v | g ? k */
        static void *t; gint v = 0; if (!t) t = wg_ginthash_init(db);
        if (tok[1][0] == '+') { gint rc = wg_ginthash_addkey(db, t, atol(tok[2]), atol(tok[3])); printf("{\"op\":\"gadd\",\"k\":%s,\"x\":%s,\"rc\":%ld}\n", tok[2], tok[3], (long)rc); }
        else { gint rc = wg_ginthash_getkey(db, t, atol(tok[2]), &v); printf("{\"op\":\"gget\",\"k\":%s,\"rc\":%ld,\"x\":%ld}\n", tok[2], (long)rc, (long)v); }
        break; }
      case 'h': { static void *t; if (!t) t = wg_dhash_init(db, 64);
        if (tok[1][0] == '+') printf("{\"op\":\"dadd\",\"k\":%s,\"rc\":%ld}\n", tok[2], (long)wg_dhash_addkey(db, t, atol(tok[2])));
        else printf("{\"op\":\"dhas\",\"k\":%s,\"rc\":%ld}\n", tok[2], (long)(wg_dhash_haskey(db, t, atol(tok[2])) != 0));
        break; }
    }
  }
  fflush(stdout);
  return 0;
}
