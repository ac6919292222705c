// Model of the libxml2 reader and writer interfaces used by the library: a small
// XML pull parser / writer executed symbolically.  In native replay the real
// libxml2 is used, unless XML_FORCE_MODEL is set (fault injection harnesses).
#include "sym.h"
#include "xmlmodel.h"
#include <libxml/xmlreader.h>
#include <libxml/xmlwriter.h>
#include <stdlib.h>
#include <string.h>
#ifndef XML_FORCE_MODEL
#define XML_FORCE_MODEL 0
#endif
extern "C" {
XmlModel xml_model;
#if !SYM_NATIVE || XML_FORCE_MODEL
// ------------------------------------------------------------------ helpers
struct Str { char* p; size_t n, cap; };
static void st_init(Str* s) { s->p = 0; s->n = s->cap = 0; }
static void st_add(Str* s, char c) {
  if (s->n == s->cap) {
    size_t cap = s->cap ? s->cap * 2 : 16;
    char* q = (char*)malloc(cap);
    if (s->n) memcpy(q, s->p, s->n);
    free(s->p);
    s->p = q; s->cap = cap;
  }
  s->p[s->n++] = c;
}
static char* st_dup(const char* p, size_t n) { char* r = (char*)malloc(n + 1); if (n) memcpy(r, p, n); r[n] = 0; return r; }
// no short circuits: one decision per character, however many classes there are
static int is_sp(int c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); }
static int is_name(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_') | (c == '-') | (c == '.') | (c == ':') | (c >= 0x80); }

static void count(int* p, int d) { World w; *p += d; }
static void model_free(void* p) { free(p); }
xmlFreeFunc xmlFree = model_free;
static xmlError g_err;
static char g_msg[] = "model: xml error";
#if LIBXML_VERSION >= 21200
const xmlError* xmlGetLastError(void) { if (xml_model.no_error) return 0; g_err.message = g_msg; return &g_err; }
#else
xmlErrorPtr xmlGetLastError(void) { if (xml_model.no_error) return 0; g_err.message = g_msg; return &g_err; }
#endif
void xmlInitParser(void) {}

// ------------------------------------------------------------------ reader
enum { MAXEV = 6000, MAXDEPTH = 96 };
struct Ev { int type; char* name; char* value; int empty; };
struct _xmlTextReader {
  Ev ev[MAXEV]; int n, cur, hard_error, eof_error, subst;
  const unsigned char* d; int len, pos;
};
struct Scan { xmlTextReaderPtr r; };
static void add_ev(xmlTextReaderPtr r, int type, const char* name, size_t nl, const char* val, size_t vl, int has_val, int empty) {
  if (r->n >= MAXEV) sym_fail("model: too many XML events");
  Ev* e = &r->ev[r->n++];
  e->type = type; e->name = st_dup(name, nl); e->value = has_val ? st_dup(val, vl) : 0; e->empty = empty;
}
static int peek(xmlTextReaderPtr r, int o) { return r->pos + o < r->len ? r->d[r->pos + o] : -1; }
static int lit(xmlTextReaderPtr r, const char* s) {
  int i;
  for (i = 0; s[i]; i++) if (peek(r, i) != (unsigned char)s[i]) return 0;
  return 1;
}
// one character of text at the cursor appended to s; 0 ok, -1 malformed
static int text_char(xmlTextReaderPtr r, Str* s) {
  int c = peek(r, 0);
  if (c < 0x20) {
    if (c == '\r') { st_add(s, '\n'); r->pos++; if (peek(r, 0) == '\n') r->pos++; return 0; }
    if (c == '\n' || c == '\t') { st_add(s, (char)c); r->pos++; return 0; }
    return -1;
  }
  if (c < 0x80) { st_add(s, (char)c); r->pos++; return 0; }
  int k = 0, lo = 0x80, hi = 0xbf;
  if (c < 0xc2) return -1;
  if (c < 0xe0) k = 1;
  else if (c < 0xf0) { k = 2; if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; }
  else if (c < 0xf5) { k = 3; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f; }
  else return -1;
  int i;
  for (i = 1; i <= k; i++) { int x = peek(r, i); if (x < lo || x > hi) return -1; lo = 0x80; hi = 0xbf; }
  if (k == 2 && c == 0xef && peek(r, 1) == 0xbf && peek(r, 2) >= 0xbe) return -1;     // U+FFFE, U+FFFF
  for (i = 0; i <= k; i++) st_add(s, (char)peek(r, i));
  r->pos += k + 1;
  return 0;
}
// reference at '&'
static int reference(xmlTextReaderPtr r, Str* s) {
  static const struct { const char* t; char c; } pre[] = { { "&lt;", '<' }, { "&gt;", '>' }, { "&amp;", '&' }, { "&quot;", '"' }, { "&apos;", '\'' } };
  for (int i = 0; i < 5; i++) if (lit(r, pre[i].t)) { st_add(s, pre[i].c); r->pos += strlen(pre[i].t); return 0; }
  if (!lit(r, "&#")) return -1;
  r->pos += 2;
  int hex = 0, v = 0, n = 0;
  if (peek(r, 0) == 'x') { hex = 1; r->pos++; }
  for (;; n++) {
    int c = peek(r, 0), dg;
    if (c >= '0' && c <= '9') dg = c - '0';
    else if (hex && c >= 'a' && c <= 'f') dg = c - 'a' + 10;
    else if (hex && c >= 'A' && c <= 'F') dg = c - 'A' + 10;
    else break;
    v = v * (hex ? 16 : 10) + dg; r->pos++;
    if (v > 0x10ffff) return -1;
  }
  if (!n || peek(r, 0) != ';') return -1;
  r->pos++;
  if (v < 0x20 && v != 9 && v != 10 && v != 13) return -1;
  if (v < 0x80) st_add(s, (char)v);
  else if (v < 0x800) { st_add(s, (char)(0xc0 | v >> 6)); st_add(s, (char)(0x80 | (v & 63))); }
  else if (v < 0x10000) { st_add(s, (char)(0xe0 | v >> 12)); st_add(s, (char)(0x80 | (v >> 6 & 63))); st_add(s, (char)(0x80 | (v & 63))); }
  else { st_add(s, (char)(0xf0 | v >> 18)); st_add(s, (char)(0x80 | (v >> 12 & 63))); st_add(s, (char)(0x80 | (v >> 6 & 63))); st_add(s, (char)(0x80 | (v & 63))); }
  return 0;
}
static int scan(xmlTextReaderPtr r) {            // 0 complete, 1 premature end, -1 malformed
  const char* stack[MAXDEPTH]; int depth = 0, root = 0;
  if (lit(r, "<?xml")) { while (!lit(r, "?>")) { if (r->pos >= r->len) return -1; r->pos++; } r->pos += 2; }
  for (;;) {
    if (r->pos >= r->len) return depth ? 1 : root ? 0 : -1;
    int c = peek(r, 0);
    if (c != '<') {
      if (!depth) { if (!is_sp(c)) return -1; r->pos++; continue; }
      Str s; st_init(&s);
      while (r->pos < r->len && (c = peek(r, 0)) != '<') {
        int rc = c == '&' ? reference(r, &s) : c == ']' && lit(r, "]]>") ? -1 : text_char(r, &s);
        if (rc) { free(s.p); return -1; }
      }
      int blank = 1;
      for (size_t i = 0; blank && i < s.n; i++) blank = is_sp((unsigned char)s.p[i]);
      add_ev(r, blank ? XML_READER_TYPE_SIGNIFICANT_WHITESPACE : XML_READER_TYPE_TEXT, "#text", 5, s.p, s.n, 1, 0);
      free(s.p);
      continue;
    }
    if (lit(r, "<!--")) {
      int b = r->pos + 4; r->pos += 4;
      while (!lit(r, "-->")) { if (r->pos >= r->len || lit(r, "--")) return -1; r->pos++; }
      if (depth || 1) add_ev(r, XML_READER_TYPE_COMMENT, "#comment", 8, (const char*)r->d + b, r->pos - b, 1, 0);
      r->pos += 3;
    } else if (lit(r, "<![CDATA[")) {
      if (!depth) return -1;
      int b = r->pos += 9;
      while (!lit(r, "]]>")) { if (r->pos >= r->len) return -1; r->pos++; }
      add_ev(r, XML_READER_TYPE_CDATA, "#cdata-section", 14, (const char*)r->d + b, r->pos - b, 1, 0);
      r->pos += 3;
    } else if (lit(r, "<?")) {
      int b = r->pos += 2;
      while (!lit(r, "?>")) { if (r->pos >= r->len) return -1; r->pos++; }
      add_ev(r, XML_READER_TYPE_PROCESSING_INSTRUCTION, "pi", 2, (const char*)r->d + b, r->pos - b, 1, 0);
      r->pos += 2;
    } else if (lit(r, "<!")) {
      return -1;                                 // document types are outside the model
    } else if (lit(r, "</")) {
      if (!depth) return -1;
      int b = r->pos += 2;
      while (is_name(peek(r, 0))) r->pos++;
      size_t nl = r->pos - b;
      while (is_sp(peek(r, 0))) r->pos++;
      if (r->pos >= r->len) return 1;
      if (peek(r, 0) != '>') return -1;
      r->pos++;
      const char* top = stack[--depth];
      if (strlen(top) != nl || memcmp(top, r->d + b, nl)) return -1;
      add_ev(r, XML_READER_TYPE_END_ELEMENT, top, nl, 0, 0, 0, 0);
    } else {
      if (!depth && root) return -1;
      root = 1;
      int b = ++r->pos;
      while (is_name(peek(r, 0))) r->pos++;
      size_t nl = r->pos - b;
      if (!nl) return r->pos >= r->len ? 1 : -1;
      int q = 0, empty = 0;
      for (;; r->pos++) {                        // attributes are skipped
        int x = peek(r, 0);
        if (x < 0) return 1;
        if (q) { if (x == q) q = 0; else if (x == '<') return -1; continue; }
        if (x == '"' || x == '\'') q = x;
        else if (x == '<') return -1;
        else if (x == '/') { if (peek(r, 1) != '>') return -1; empty = 1; r->pos += 2; break; }
        else if (x == '>') { r->pos++; break; }
      }
      add_ev(r, XML_READER_TYPE_ELEMENT, (const char*)r->d + b, nl, 0, 0, 0, empty);
      if (!empty) {
        if (depth >= MAXDEPTH) sym_fail("model: XML nesting too deep");
        stack[depth++] = r->ev[r->n - 1].name;
      }
    }
  }
}
xmlTextReaderPtr xmlReaderForMemory(const char* buf, int size, const char*, const char*, int options) {
  count(&xml_model.opened, 1); count(&xml_model.live_readers, 1);
  { World w; xml_model.options = options; }
  if (!(options & XML_PARSE_NONET)) count(&xml_model.net_allowed, 1);
  if (options & (XML_PARSE_NOENT | XML_PARSE_DTDLOAD | XML_PARSE_DTDATTR | XML_PARSE_DTDVALID | XML_PARSE_XINCLUDE)) count(&xml_model.entities_on, 1);
  xmlTextReaderPtr r = (xmlTextReaderPtr)malloc(sizeof *r);
  r->n = 0; r->cur = -1; r->hard_error = 0; r->eof_error = 0; r->subst = (options & XML_PARSE_NOENT) != 0;
  r->d = (const unsigned char*)buf; r->len = size; r->pos = 0;
  int rc = scan(r);
  if (rc < 0) r->hard_error = 1;
  if (rc > 0) r->eof_error = 1;
  return r;
}
xmlTextReaderPtr xmlReaderForDoc(const xmlChar* cur, const char* u, const char* e, int o) { return xmlReaderForMemory((const char*)cur, strlen((const char*)cur), u, e, o); }
int xmlTextReaderSetParserProp(xmlTextReaderPtr r, int prop, int v) {
  if (prop == XML_PARSER_SUBST_ENTITIES) { r->subst = v; count(&xml_model.subst_set, 1); if (v) count(&xml_model.entities_on, 1); }
  else if (v && (prop == XML_PARSER_LOADDTD || prop == XML_PARSER_DEFAULTATTRS || prop == XML_PARSER_VALIDATE)) count(&xml_model.entities_on, 1);
  return 0;
}
void xmlFreeTextReader(xmlTextReaderPtr r) {
  if (!r) return;
  count(&xml_model.live_readers, -1);
  for (int i = 0; i < r->n; i++) { free(r->ev[i].name); free(r->ev[i].value); }
  free(r);
}
int xmlTextReaderRead(xmlTextReaderPtr r) {
  count(&xml_model.reads, 1);
  if (r->subst) count(&xml_model.entities_on, 1);
  if (xml_model.read_fault && xml_model.read_fault()) { r->hard_error = 1; return -1; }
  if (r->hard_error) return -1;
  if (r->cur + 1 < r->n) { r->cur++; return 1; }
  r->cur = r->n;
  return r->eof_error ? -1 : 0;
}
static Ev* cur(xmlTextReaderPtr r) { return r->cur >= 0 && r->cur < r->n ? &r->ev[r->cur] : 0; }
int xmlTextReaderNodeType(xmlTextReaderPtr r) { return cur(r) ? cur(r)->type : 0; }
int xmlTextReaderIsEmptyElement(xmlTextReaderPtr r) { return cur(r) ? cur(r)->empty : 0; }
int xmlTextReaderHasValue(xmlTextReaderPtr r) { return cur(r) && cur(r)->value; }
int xmlTextReaderDepth(xmlTextReaderPtr r) {
  int d = 0;
  for (int i = 0; i < r->cur && i < r->n; i++) { if (r->ev[i].type == XML_READER_TYPE_ELEMENT && !r->ev[i].empty) d++; if (r->ev[i].type == XML_READER_TYPE_END_ELEMENT) d--; }
  return cur(r) && cur(r)->type == XML_READER_TYPE_END_ELEMENT ? d - 1 : d;
}
xmlChar* xmlTextReaderName(xmlTextReaderPtr r) { Ev* e = cur(r); return e ? (xmlChar*)st_dup(e->name, strlen(e->name)) : 0; }
const xmlChar* xmlTextReaderConstName(xmlTextReaderPtr r) { Ev* e = cur(r); return e ? (xmlChar*)e->name : 0; }
static const char* local(const char* n) { for (const char* p = n; *p; p++) if (*p == ':') return p + 1; return n; }
const xmlChar* xmlTextReaderConstLocalName(xmlTextReaderPtr r) { Ev* e = cur(r); return e ? (xmlChar*)local(e->name) : 0; }
xmlChar* xmlTextReaderLocalName(xmlTextReaderPtr r) { Ev* e = cur(r); if (!e) return 0; const char* l = local(e->name); return (xmlChar*)st_dup(l, strlen(l)); }
xmlChar* xmlTextReaderValue(xmlTextReaderPtr r) { Ev* e = cur(r); return e && e->value ? (xmlChar*)st_dup(e->value, strlen(e->value)) : 0; }
const xmlChar* xmlTextReaderConstValue(xmlTextReaderPtr r) { Ev* e = cur(r); return e ? (xmlChar*)e->value : 0; }
xmlChar* xmlTextReaderReadString(xmlTextReaderPtr r) {
  Ev* e = cur(r);
  if (!e || e->type == XML_READER_TYPE_END_ELEMENT) return 0;
  if (e->type != XML_READER_TYPE_ELEMENT) return xmlTextReaderValue(r);
  Str s; st_init(&s);
  for (int i = r->cur + 1, d = e->empty ? 0 : 1; d && i < r->n; i++) {
    int t = r->ev[i].type;
    if (t == XML_READER_TYPE_ELEMENT && !r->ev[i].empty) d++;
    else if (t == XML_READER_TYPE_END_ELEMENT) d--;
    else if (t == XML_READER_TYPE_TEXT || t == XML_READER_TYPE_CDATA || t == XML_READER_TYPE_SIGNIFICANT_WHITESPACE) for (const char* p = r->ev[i].value; *p; p++) st_add(&s, *p);
  }
  st_add(&s, 0);
  return (xmlChar*)s.p;
}
int xmlTextReaderReadState(xmlTextReaderPtr r) { return r->hard_error ? XML_TEXTREADER_MODE_ERROR : r->cur < 0 ? XML_TEXTREADER_MODE_INITIAL : r->cur < r->n ? XML_TEXTREADER_MODE_INTERACTIVE : XML_TEXTREADER_MODE_EOF; }
int xmlTextReaderMoveToElement(xmlTextReaderPtr) { return 0; }
int xmlTextReaderClose(xmlTextReaderPtr r) { r->cur = r->n; return 0; }
int xmlTextReaderGetParserProp(xmlTextReaderPtr r, int p) { return p == XML_PARSER_SUBST_ENTITIES ? r->subst : 0; }
void xmlTextReaderSetErrorHandler(xmlTextReaderPtr, xmlTextReaderErrorFunc, void*) {}
void xmlTextReaderSetStructuredErrorHandler(xmlTextReaderPtr, xmlStructuredErrorFunc, void*) {}
void xmlSetGenericErrorFunc(void*, xmlGenericErrorFunc) {}
void xmlSetStructuredErrorFunc(void*, xmlStructuredErrorFunc) {}
void xmlResetLastError(void) {}
void xmlCleanupParser(void) {}
int xmlStrlen(const xmlChar* s) { return s ? (int)strlen((const char*)s) : 0; }
xmlChar* xmlStrdup(const xmlChar* s) { return s ? (xmlChar*)st_dup((const char*)s, strlen((const char*)s)) : 0; }
int xmlStrcmp(const xmlChar* a, const xmlChar* b) { return a == b ? 0 : !a ? -1 : !b ? 1 : strcmp((const char*)a, (const char*)b); }
int xmlStrEqual(const xmlChar* a, const xmlChar* b) { return a == b || (a && b && !strcmp((const char*)a, (const char*)b)); }
xmlNodePtr xmlTextReaderCurrentNode(xmlTextReaderPtr r) { return (xmlNodePtr)r; }
xmlChar* xmlGetNodePath(const xmlNode*) { return (xmlChar*)st_dup("/node", 5); }

// ------------------------------------------------------------------ writer
struct _xmlTextWriter { xmlBufferPtr b; const char* name[MAXDEPTH]; int open[MAXDEPTH]; int depth; };
xmlBufferPtr xmlBufferCreate(void) {
  count(&xml_model.live_buffers, 1);
  xmlBufferPtr b = (xmlBufferPtr)malloc(sizeof *b);
  b->size = 64; b->use = 0; b->content = (xmlChar*)malloc(b->size); b->content[0] = 0; b->contentIO = 0;
  return b;
}
void xmlBufferFree(xmlBufferPtr b) { if (!b) return; count(&xml_model.live_buffers, -1); free(b->content); free(b); }
const xmlChar* xmlBufferContent(const xmlBuffer* b) { return b->content; }
int xmlBufferLength(const xmlBuffer* b) { return b->use; }
static void put(xmlTextWriterPtr w, const char* s, size_t n) {
  xmlBufferPtr b = w->b;
  if (b->use + n + 1 > b->size) {
    unsigned cap = (b->use + n + 1) * 2;
    xmlChar* q = (xmlChar*)malloc(cap);
    memcpy(q, b->content, b->use);
    free(b->content);
    b->content = q; b->size = cap;
  }
  memcpy(b->content + b->use, s, n);
  b->use += n; b->content[b->use] = 0;
}
static void puts_(xmlTextWriterPtr w, const char* s) { put(w, s, strlen(s)); }
static int wfault() { return xml_model.write_fault && xml_model.write_fault(); }
xmlTextWriterPtr xmlNewTextWriterMemory(xmlBufferPtr b, int) {
  if (wfault()) return 0;
  count(&xml_model.live_writers, 1);
  xmlTextWriterPtr w = (xmlTextWriterPtr)malloc(sizeof *w);
  w->b = b; w->depth = 0;
  return w;
}
void xmlFreeTextWriter(xmlTextWriterPtr w) { if (!w) return; count(&xml_model.live_writers, -1); for (int i = 0; i < w->depth; i++) free((void*)w->name[i]); free(w); }
int xmlTextWriterStartDocument(xmlTextWriterPtr w, const char*, const char* enc, const char*) {
  if (wfault()) return -1;
  puts_(w, "<?xml version=\"1.0\"");
  if (enc) { puts_(w, " encoding=\""); puts_(w, enc); puts_(w, "\""); }
  puts_(w, "?>\n");
  return 0;
}
static void close_tag(xmlTextWriterPtr w) { if (w->depth && w->open[w->depth - 1]) { puts_(w, ">"); w->open[w->depth - 1] = 0; } }
int xmlTextWriterStartElement(xmlTextWriterPtr w, const xmlChar* name) {
  if (wfault()) return -1;
  close_tag(w);
  if (w->depth >= MAXDEPTH) sym_fail("model: XML nesting too deep");
  puts_(w, "<"); puts_(w, (const char*)name);
  w->name[w->depth] = st_dup((const char*)name, strlen((const char*)name)); w->open[w->depth++] = 1;
  return 0;
}
int xmlTextWriterEndElement(xmlTextWriterPtr w) {
  if (!w->depth) return -1;
  w->depth--;
  if (w->open[w->depth]) puts_(w, "/>");
  else { puts_(w, "</"); puts_(w, w->name[w->depth]); puts_(w, ">"); }
  free((void*)w->name[w->depth]);
  return 0;
}
int xmlTextWriterFullEndElement(xmlTextWriterPtr w) { close_tag(w); return xmlTextWriterEndElement(w); }
int xmlTextWriterWriteString(xmlTextWriterPtr w, const xmlChar* s) {
  if (wfault()) return -1;
  if (!s) return -1;
  close_tag(w);
  for (; *s; s++) {
    switch (*s) {
    case '<': puts_(w, "&lt;"); break;
    case '>': puts_(w, "&gt;"); break;
    case '&': puts_(w, "&amp;"); break;
    case '"': puts_(w, "&quot;"); break;
    case '\r': puts_(w, "&#13;"); break;
    default: put(w, (const char*)s, 1);
    }
  }
  return 0;
}
int xmlTextWriterWriteRawLen(xmlTextWriterPtr w, const xmlChar* s, int n) { if (wfault()) return -1; close_tag(w); put(w, (const char*)s, n); return n; }
int xmlTextWriterWriteRaw(xmlTextWriterPtr w, const xmlChar* s) { return xmlTextWriterWriteRawLen(w, s, strlen((const char*)s)); }
int xmlTextWriterWriteElement(xmlTextWriterPtr w, const xmlChar* n, const xmlChar* c) {
  if (xmlTextWriterStartElement(w, n) < 0) return -1;
  if (c && xmlTextWriterWriteString(w, c) < 0) return -1;
  return xmlTextWriterEndElement(w);
}
int xmlTextWriterWriteCDATA(xmlTextWriterPtr w, const xmlChar* s) { if (wfault()) return -1; close_tag(w); puts_(w, "<![CDATA["); puts_(w, (const char*)s); puts_(w, "]]>"); return 0; }
int xmlTextWriterSetIndent(xmlTextWriterPtr, int on) { if (on) sym_fail("model: indented output is not modelled"); return 0; }
int xmlTextWriterEndDocument(xmlTextWriterPtr w) {
  if (wfault()) return -1;
  while (w->depth) xmlTextWriterEndElement(w);
  puts_(w, "\n");
  return 0;
}
int xmlTextWriterFlush(xmlTextWriterPtr) { return 0; }
#endif
}
