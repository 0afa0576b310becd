#include "blake3.h"
#include <string.h>
enum { CHUNK_START = 1, CHUNK_END = 2, PARENT = 4, ROOT = 8 };
static const uint32_t IV[8] = {0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
static const uint8_t PERM[16] = {2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
static inline uint32_t rr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
#define G(a,b,c,d,x,y) do { s[a]+=s[b]+(x); s[d]=rr(s[d]^s[a],16); s[c]+=s[d]; s[b]=rr(s[b]^s[c],12); \
	s[a]+=s[b]+(y); s[d]=rr(s[d]^s[a],8); s[c]+=s[d]; s[b]=rr(s[b]^s[c],7); } while(0)
static void compress(const uint32_t cv[8], const uint8_t block[64], uint64_t counter, uint32_t blen, uint32_t flags, uint32_t out[16])
{
	uint32_t s[16], m[16], t[16];
	for(int i = 0; i < 16; i++) {
		m[i] = (uint32_t)block[4*i] | (uint32_t)block[4*i+1] << 8 | (uint32_t)block[4*i+2] << 16 | (uint32_t)block[4*i+3] << 24;
	}
	for(int i = 0; i < 8; i++) s[i] = cv[i];
	for(int i = 0; i < 4; i++) s[8+i] = IV[i];
	s[12] = (uint32_t)counter; s[13] = (uint32_t)(counter >> 32); s[14] = blen; s[15] = flags;
	for(int r = 0; r < 7; r++) {
		G(0,4,8,12,m[0],m[1]); G(1,5,9,13,m[2],m[3]); G(2,6,10,14,m[4],m[5]); G(3,7,11,15,m[6],m[7]);
		G(0,5,10,15,m[8],m[9]); G(1,6,11,12,m[10],m[11]); G(2,7,8,13,m[12],m[13]); G(3,4,9,14,m[14],m[15]);
		for(int i = 0; i < 16; i++) t[i] = m[PERM[i]];
		memcpy(m, t, sizeof(m));
	}
	for(int i = 0; i < 8; i++) { out[i] = s[i] ^ s[i+8]; out[i+8] = s[i+8] ^ cv[i]; }
}
void blake3_hasher_init(blake3_hasher* h)
{
	memcpy(h->cv, IV, 32);
	h->chunk_counter = 0; h->block_len = 0; h->blocks_compressed = 0; h->stack_len = 0;
}
static size_t chunk_len(const blake3_hasher* h) { return 64u * h->blocks_compressed + h->block_len; }
static uint32_t start_flag(const blake3_hasher* h) { return h->blocks_compressed ? 0 : CHUNK_START; }
static void words_to_bytes(const uint32_t* w, int n, uint8_t* b)
{
	for(int i = 0; i < n; i++) { b[4*i]=w[i]; b[4*i+1]=w[i]>>8; b[4*i+2]=w[i]>>16; b[4*i+3]=w[i]>>24; }
}
static void parent_block(const uint32_t* l, const uint32_t* r, uint8_t* b) { words_to_bytes(l,8,b); words_to_bytes(r,8,b+32); }
static uint8_t* padded(const blake3_hasher* h, uint8_t* tmp) { memset(tmp,0,64); memcpy(tmp,h->block,h->block_len); return tmp; }
void blake3_hasher_update(blake3_hasher* h, const void* input, size_t len)
{
	const uint8_t* in = (const uint8_t*)input;
	uint32_t out[16]; uint8_t tmp[64];
	while(len > 0) {
		if(chunk_len(h) == 1024) {
			uint32_t cv[8];
			compress(h->cv, h->block, h->chunk_counter, 64, start_flag(h) | CHUNK_END, out);
			memcpy(cv, out, 32);
			uint64_t total = h->chunk_counter + 1;
			while(!(total & 1)) {
				parent_block(h->stack[--h->stack_len], cv, tmp);
				compress(IV, tmp, 0, 64, PARENT, out);
				memcpy(cv, out, 32);
				total >>= 1;
			}
			memcpy(h->stack[h->stack_len++], cv, 32);
			memcpy(h->cv, IV, 32);
			h->chunk_counter++; h->block_len = 0; h->blocks_compressed = 0;
		}
		if(h->block_len == 64) {
			compress(h->cv, h->block, h->chunk_counter, 64, start_flag(h), out);
			memcpy(h->cv, out, 32);
			h->blocks_compressed++; h->block_len = 0;
		}
		size_t want = 64 - h->block_len;
		if(want > len) want = len;
		memcpy(h->block + h->block_len, in, want);
		h->block_len += want; in += want; len -= want;
	}
}
void blake3_hasher_finalize(const blake3_hasher* h, uint8_t* out, size_t out_len)
{
	uint32_t cv[8], w[16]; uint8_t blk[64]; uint64_t counter = h->chunk_counter; uint32_t blen = h->block_len;
	uint32_t flags = start_flag(h) | CHUNK_END;
	memcpy(cv, h->cv, 32); padded(h, blk);
	int n = h->stack_len;
	while(n > 0) {
		compress(cv, blk, counter, blen, flags, w);
		parent_block(h->stack[--n], w, blk);
		memcpy(cv, IV, 32); counter = 0; blen = 64; flags = PARENT;
	}
	for(uint64_t i = 0; out_len > 0; i++) {
		uint8_t b[64];
		compress(cv, blk, i ? i : (flags & PARENT ? 0 : counter), blen, flags | ROOT, w);
		words_to_bytes(w, 16, b);
		size_t c = out_len < 64 ? out_len : 64;
		memcpy(out, b, c); out += c; out_len -= c;
	}
}
