// Stand-in for the part of Wireshark's dissector interface that a dissector of this kind uses. Implemented in chk_ws.cc.
#pragma once
#include <sys/types.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <inttypes.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef int gint;
typedef unsigned int guint;
typedef int gboolean;
typedef char gchar;
typedef unsigned char guchar;
typedef long glong;
typedef unsigned long gulong;
typedef size_t gsize;
typedef ssize_t gssize;
typedef void* gpointer;
typedef const void* gconstpointer;
typedef uint8_t guint8;
typedef uint16_t guint16;
typedef uint32_t guint32;
typedef uint64_t guint64;
typedef int8_t gint8;
typedef int16_t gint16;
typedef int32_t gint32;
typedef int64_t gint64;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define G_GUINT64_FORMAT "lu"
#define G_GINT64_FORMAT "ld"
#define G_GUINT64_MODIFIER "l"
#define _U_ __attribute__((unused))
#define WS_DLL_PUBLIC
#define WS_DLL_PUBLIC_DEF
#define WS_NORETURN __attribute__((noreturn))
#define array_length(x) (sizeof(x) / sizeof((x)[0]))
#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
#define g_snprintf snprintf
#define ws_snprintf snprintf
#define g_strlcpy ws_stub_strlcpy
size_t ws_stub_strlcpy(char* d, const char* s, size_t n);

typedef struct tvbuff tvbuff_t;
typedef struct _proto_node proto_node;
typedef proto_node proto_tree;
typedef proto_node proto_item;
typedef struct _column_info column_info;
typedef struct dissector_handle* dissector_handle_t;
typedef struct dissector_table* dissector_table_t;

typedef enum { AT_NONE, AT_ETHER, AT_IPv4, AT_IPv6 } address_type;
typedef struct _address { int type; int len; const void* data; } address;

typedef struct _packet_info {
    column_info* cinfo;
    address dl_src, dl_dst, net_src, net_dst, src, dst;
    guint32 srcport, destport;
    guint16 can_desegment;
    int desegment_offset;
    guint32 desegment_len;
    guint32 num;
    void* pool;
    void* private_data;
} packet_info;
#define DESEGMENT_ONE_MORE_SEGMENT 0x0fffffff
#define DESEGMENT_UNTIL_FIN 0x0ffffffe

#define ENC_BIG_ENDIAN 0x00000000
#define ENC_LITTLE_ENDIAN 0x80000000
#define ENC_NA 0x00000000
#define ENC_HOST_ENDIAN ENC_LITTLE_ENDIAN
#define ENC_ASCII 0x00000000
#define ENC_UTF_8 0x00000002

enum ftenum { FT_NONE, FT_PROTOCOL, FT_BOOLEAN, FT_CHAR, FT_UINT8, FT_UINT16, FT_UINT24, FT_UINT32, FT_UINT40, FT_UINT48, FT_UINT56, FT_UINT64,
    FT_INT8, FT_INT16, FT_INT24, FT_INT32, FT_INT64, FT_STRING, FT_STRINGZ, FT_BYTES, FT_IPv4, FT_IPv6, FT_ETHER };
enum { BASE_NONE, BASE_DEC, BASE_HEX, BASE_OCT, BASE_DEC_HEX, BASE_HEX_DEC, BASE_CUSTOM };
#define STR_ASCII BASE_NONE
#define STR_UNICODE BASE_NONE

typedef struct _value_string { guint32 value; const gchar* strptr; } value_string;
#define VALS(x) ((const struct _value_string*) (x))

typedef struct _header_field_info {
    const char* name;
    const char* abbrev;
    enum ftenum type;
    int display;
    const void* strings;
    guint64 bitmask;
    const char* blurb;
    int id, parent, ref_type, same_name_prev_id;
    struct _header_field_info* same_name_next;
} header_field_info;
#define HFILL -1, 0, 0, -1, NULL
typedef struct hf_register_info { int* p_id; header_field_info hfinfo; } hf_register_info;

enum { COL_PROTOCOL, COL_INFO, COL_N };

typedef int (*dissector_t)(tvbuff_t*, packet_info*, proto_tree*, void*);

typedef struct { void (*register_protoinfo)(void); void (*register_handoff)(void); } proto_plugin;
void proto_register_plugin(const proto_plugin* plugin);

int proto_register_protocol(const char* name, const char* short_name, const char* filter_name);
void proto_register_field_array(int parent, hf_register_info* hf, int num);
void proto_register_subtree_array(gint* const* indices, int num);
dissector_handle_t create_dissector_handle(dissector_t dissector, int proto);
dissector_handle_t register_dissector(const char* name, dissector_t dissector, int proto);
dissector_handle_t find_dissector(const char* name);
dissector_table_t find_dissector_table(const char* name);
dissector_handle_t dissector_get_uint_handle(dissector_table_t table, guint32 value);
void dissector_add_uint(const char* table, guint32 value, dissector_handle_t handle);
void dissector_change_uint(const char* table, guint32 value, dissector_handle_t handle);
void dissector_delete_uint(const char* table, guint32 value, dissector_handle_t handle);
void dissector_add_for_decode_as(const char* table, dissector_handle_t handle);
int call_dissector(dissector_handle_t h, tvbuff_t* tvb, packet_info* pinfo, proto_tree* tree);
int call_dissector_with_data(dissector_handle_t h, tvbuff_t* tvb, packet_info* pinfo, proto_tree* tree, void* data);

guint tvb_captured_length(const tvbuff_t* tvb);
guint tvb_reported_length(const tvbuff_t* tvb);
gint tvb_captured_length_remaining(const tvbuff_t* tvb, gint offset);
gint tvb_reported_length_remaining(const tvbuff_t* tvb, gint offset);
gboolean tvb_bytes_exist(const tvbuff_t* tvb, gint offset, gint length);
gboolean tvb_offset_exists(const tvbuff_t* tvb, gint offset);
tvbuff_t* tvb_new_subset_length(tvbuff_t* tvb, gint offset, gint length);
tvbuff_t* tvb_new_subset_remaining(tvbuff_t* tvb, gint offset);
guint8 tvb_get_guint8(tvbuff_t* tvb, gint offset);
guint16 tvb_get_guint16(tvbuff_t* tvb, gint offset, guint encoding);
guint32 tvb_get_guint32(tvbuff_t* tvb, gint offset, guint encoding);
guint64 tvb_get_guint64(tvbuff_t* tvb, gint offset, guint encoding);
guint16 tvb_get_letohs(tvbuff_t* tvb, gint offset);
guint32 tvb_get_letohl(tvbuff_t* tvb, gint offset);
guint64 tvb_get_letoh64(tvbuff_t* tvb, gint offset);
guint16 tvb_get_ntohs(tvbuff_t* tvb, gint offset);
guint32 tvb_get_ntohl(tvbuff_t* tvb, gint offset);
guint64 tvb_get_ntoh64(tvbuff_t* tvb, gint offset);
guint32 tvb_get_ipv4(tvbuff_t* tvb, gint offset);
#define tvb_get_uint8 tvb_get_guint8
#define tvb_get_uint16 tvb_get_guint16
#define tvb_get_uint32 tvb_get_guint32
#define tvb_get_uint64 tvb_get_guint64
const guint8* tvb_get_ptr(tvbuff_t* tvb, gint offset, gint length);
void* tvb_memcpy(tvbuff_t* tvb, void* target, gint offset, size_t length);
gchar* tvb_ip_to_str(tvbuff_t* tvb, gint offset);

proto_item* proto_tree_add_item(proto_tree* tree, int hf, tvbuff_t* tvb, gint start, gint length, guint encoding);
proto_item* proto_tree_add_item_ret_uint(proto_tree* tree, int hf, tvbuff_t* tvb, gint start, gint length, guint encoding, guint32* ret);
proto_item* proto_tree_add_item_ret_uint64(proto_tree* tree, int hf, tvbuff_t* tvb, gint start, gint length, guint encoding, guint64* ret);
proto_item* proto_tree_add_uint(proto_tree* tree, int hf, tvbuff_t* tvb, gint start, gint length, guint32 value);
proto_item* proto_tree_add_uint64(proto_tree* tree, int hf, tvbuff_t* tvb, gint start, gint length, guint64 value);
proto_item* proto_tree_add_ipv4(proto_tree* tree, int hf, tvbuff_t* tvb, gint start, gint length, guint32 value_be);
proto_tree* proto_item_add_subtree(proto_item* ti, gint idx);
proto_tree* proto_tree_add_subtree(proto_tree* tree, tvbuff_t* tvb, gint start, gint length, gint idx, proto_item** ti, const char* text);
void proto_item_append_text(proto_item* ti, const char* fmt, ...);
void proto_item_set_text(proto_item* ti, const char* fmt, ...);
void proto_item_set_len(proto_item* ti, gint length);

void col_clear(column_info* c, gint el);
void col_set_str(column_info* c, gint el, const gchar* s);
void col_add_str(column_info* c, gint el, const gchar* s);
void col_append_str(column_info* c, gint el, const gchar* s);
void col_add_fstr(column_info* c, gint el, const gchar* fmt, ...);
void col_append_fstr(column_info* c, gint el, const gchar* fmt, ...);
void col_append_sep_fstr(column_info* c, gint el, const gchar* sep, const gchar* fmt, ...);
const gchar* col_get_text(column_info* c, gint el);
void col_set_fence(column_info* c, gint el);

void address_to_str_buf(const address* a, gchar* buf, int len);
gchar* address_to_str(void* scope, const address* a);
void* wmem_packet_scope(void);
char* wmem_strdup_printf(void* scope, const char* fmt, ...);

void tcp_dissect_pdus(tvbuff_t* tvb, packet_info* pinfo, proto_tree* tree, gboolean proto_desegment, guint fixed_len,
    guint (*get_pdu_len)(packet_info*, tvbuff_t*, int, void*), dissector_t dissect_pdu, void* data);

// What a dissector prints goes nowhere.
int ws_stub_printf(const char* fmt, ...);
#ifdef WS_STUB_PLUGIN
#define printf ws_stub_printf
#define putchar(c) ((void) 0)
#define puts(s) ((void) 0)
#endif

// The plugin's entry.
void plugin_register(void);
#ifdef __cplusplus
}
#endif
