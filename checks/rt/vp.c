/* Run-time helpers for conformance programs, compiled by gcc. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>

static long nev;
#define EV if (++nev > 300000) exit(97)
void vp_i(int ty, long v) { EV; printf("i %d %lx\n", ty, (unsigned long)v); }
void vp_b(int id, void *p, long n) {
	unsigned char *c = p;
	EV;
	printf("b %d ", id);
	for (long i = 0; i < n; i++) printf("%02x", c[i]);
	printf("\n");
}
void vp_f(float v) { unsigned u; memcpy(&u, &v, 4); printf("f %08x\n", u); }
void vp_d(double v) { unsigned long u; memcpy(&u, &v, 8); printf("d %016lx\n", u); }
void vp_ld(long double v) { unsigned long u[2]; memcpy(u, &v, 16); printf("l %016lx%016lx\n", u[1], u[0]); }
void vp_t(int id) { EV; printf("t %d\n", id); }
void vp_begin(int id) { printf("begin %d\n", id); fflush(stdout); }
void vp_end(int id) { printf("end %d\n", id); fflush(stdout); }
void vp_fill(void *p, long n, int seed) {
	unsigned char *c = p;
	unsigned x = seed * 2654435761u + 12345;
	for (long i = 0; i < n; i++) { x = x * 1103515245u + 12345; c[i] = x >> 16; }
}
void vp_set(void *p, char *s, long n) { memcpy(p, s, n); }
void vp_pat(void *p, long n, int s) {
	unsigned char *c = p;
	for (long i = 0; i < n; i++) c[i] = s + 31 * (i + 1);
}
void vp_zero(void *p, long n) { memset(p, 0, n); }

/* ---- calling convention: vp_cap records what a callee finds, vp_invoke
 * calls a function with a given image of registers and stack */
struct { unsigned long a[8], f[8], sp; } vp_in;
unsigned long vp_out[3];			/* a0, a1, fa0 given back by vp_cap */
long vp_nstk, vp_nref, vp_refat[32], vp_refn[32];	/* at: 0-7 a-register, 100+o stack offset */
void *vp_retm; long vp_retn;
void vp_capture(void) {
	vp_b(1, vp_in.a, 64);
	vp_b(2, vp_in.f, 64);
	vp_b(3, (void *)vp_in.sp, vp_nstk);
	vp_i(16, vp_in.sp & 15);
	for (int i = 0; i < vp_nref; i++) {
		void *p = vp_refat[i] < 100 ? (void *)vp_in.a[vp_refat[i]] : *(void **)(vp_in.sp + vp_refat[i] - 100);
		vp_b(4, p, vp_refn[i]);
		memset(p, 0xee, vp_refn[i]);	/* the copy is the callee's */
	}
	if (vp_retn) {
		memcpy((void *)vp_in.a[0], vp_retm, vp_retn);
		vp_out[0] = vp_in.a[0];
	}
}
struct vp_img { unsigned long a[8], f[8], nstk; unsigned long *stk; unsigned long out[3]; long bad; } *vp_cur;
unsigned long vp_save[32];
long vp_idl(long x) { return x; }
double vp_idd(double x) { return x; }
float vp_idf(float x) { return x; }
#define TRASH \
	"li t1, 0x5a5a1\n li t2, 0x5a5a2\n li t3, 0x5a5a3\n li t4, 0x5a5a4\n li t5, 0x5a5a5\n li t6, 0x5a5a6\n" \
	"fmv.d.x ft0, t1\n fmv.d.x ft1, t2\n fmv.d.x ft2, t3\n fmv.d.x ft3, t4\n fmv.d.x ft4, t5\n fmv.d.x ft5, t6\n" \
	"fmv.d.x ft6, t1\n fmv.d.x ft7, t2\n fmv.d.x ft8, t3\n fmv.d.x ft9, t4\n fmv.d.x ft10, t5\n fmv.d.x ft11, t6\n"
__asm__(
	".text\n.globl vp_cap\nvp_cap:\n"
	".set n, 0\n.altmacro\n.macro vpal i\n.globl vp_cap_\\i\n vp_cap_\\i:\n.endm\n"
	".rept 4000\n vpal %n\n .set n, n+1\n .endr\n.noaltmacro\n"
	"la t0, vp_in\n"
	"sd a0, 0(t0)\n sd a1, 8(t0)\n sd a2, 16(t0)\n sd a3, 24(t0)\n sd a4, 32(t0)\n sd a5, 40(t0)\n sd a6, 48(t0)\n sd a7, 56(t0)\n"
	"fsd fa0, 64(t0)\n fsd fa1, 72(t0)\n fsd fa2, 80(t0)\n fsd fa3, 88(t0)\n fsd fa4, 96(t0)\n fsd fa5, 104(t0)\n fsd fa6, 112(t0)\n fsd fa7, 120(t0)\n"
	"sd sp, 128(t0)\n"
	"addi sp, sp, -32\n andi t1, sp, -16\n mv t2, sp\n mv sp, t1\n sd ra, 0(sp)\n sd t2, 8(sp)\n"
	"call vp_capture\n"
	"ld ra, 0(sp)\n ld t2, 8(sp)\n addi sp, t2, 32\n"
	"la t0, vp_out\n ld a0, 0(t0)\n ld a1, 8(t0)\n fld fa0, 16(t0)\n" TRASH
	"mv a2, t1\n mv a3, t2\n mv a4, t3\n mv a5, t4\n mv a6, t5\n mv a7, t6\n"
	"fmv.d.x fa1, t1\n fmv.d.x fa2, t2\n fmv.d.x fa3, t3\n fmv.d.x fa4, t4\n fmv.d.x fa5, t5\n fmv.d.x fa6, t6\n fmv.d.x fa7, t1\n"
	"ret\n"
	/* void vp_invoke0(void *fn, struct vp_img *) */
	".globl vp_invoke0\nvp_invoke0:\n"
	"la t0, vp_save\n sd ra, 0(t0)\n sd sp, 8(t0)\n"
	"sd s0, 16(t0)\n sd s1, 24(t0)\n sd s2, 32(t0)\n sd s3, 40(t0)\n sd s4, 48(t0)\n sd s5, 56(t0)\n sd s6, 64(t0)\n sd s7, 72(t0)\n sd s8, 80(t0)\n sd s9, 88(t0)\n sd s10, 96(t0)\n sd s11, 104(t0)\n"
	"fsd fs0, 112(t0)\n fsd fs1, 120(t0)\n fsd fs2, 128(t0)\n fsd fs3, 136(t0)\n fsd fs4, 144(t0)\n fsd fs5, 152(t0)\n fsd fs6, 160(t0)\n fsd fs7, 168(t0)\n fsd fs8, 176(t0)\n fsd fs9, 184(t0)\n fsd fs10, 192(t0)\n fsd fs11, 200(t0)\n"
	"mv t6, a0\n mv t5, a1\n"
	"ld t1, 128(t5)\n ld t2, 136(t5)\n"
	"addi t3, t1, 15\n andi t3, t3, -16\n sub sp, sp, t3\n mv t4, sp\n"
	"1: beqz t1, 2f\n ld t0, 0(t2)\n sd t0, 0(t4)\n addi t2, t2, 8\n addi t4, t4, 8\n addi t1, t1, -8\n j 1b\n"
	"2: la t0, vp_save\n sd sp, 208(t0)\n"
	"ld a0, 0(t5)\n ld a2, 16(t5)\n ld a3, 24(t5)\n ld a4, 32(t5)\n ld a5, 40(t5)\n ld a6, 48(t5)\n ld a7, 56(t5)\n"
	"fld fa0, 64(t5)\n fld fa1, 72(t5)\n fld fa2, 80(t5)\n fld fa3, 88(t5)\n fld fa4, 96(t5)\n fld fa5, 104(t5)\n fld fa6, 112(t5)\n fld fa7, 120(t5)\n"
	"ld a1, 8(t5)\n mv t0, t6\n"
	"li s0, 0x1230\n li s1, 0x1231\n li s2, 0x1232\n li s3, 0x1233\n li s4, 0x1234\n li s5, 0x1235\n li s6, 0x1236\n li s7, 0x1237\n li s8, 0x1238\n li s9, 0x1239\n li s10, 0x123a\n li s11, 0x123b\n"
	"fmv.d.x fs0, s0\n fmv.d.x fs1, s1\n fmv.d.x fs2, s2\n fmv.d.x fs3, s3\n fmv.d.x fs4, s4\n fmv.d.x fs5, s5\n fmv.d.x fs6, s6\n fmv.d.x fs7, s7\n fmv.d.x fs8, s8\n fmv.d.x fs9, s9\n fmv.d.x fs10, s10\n fmv.d.x fs11, s11\n"
	TRASH "jalr t0\n"
	"la t0, vp_cur\n ld t0, 0(t0)\n sd a0, 144(t0)\n sd a1, 152(t0)\n fsd fa0, 160(t0)\n"
	"li t1, 0\n la t2, vp_save\n ld t2, 208(t2)\n xor t2, t2, sp\n snez t2, t2\n or t1, t1, t2\n"
	".macro vpchk r, n\n li t2, 0x1230 + \\n\n xor t2, t2, \\r\n snez t2, t2\n slli t1, t1, 1\n or t1, t1, t2\n.endm\n"
	".macro vpchkf r, n\n fmv.x.d t3, \\r\n vpchk t3, \\n\n.endm\n"
	"vpchk s0, 0\n vpchk s1, 1\n vpchk s2, 2\n vpchk s3, 3\n vpchk s4, 4\n vpchk s5, 5\n vpchk s6, 6\n vpchk s7, 7\n vpchk s8, 8\n vpchk s9, 9\n vpchk s10, 10\n vpchk s11, 11\n"
	"vpchkf fs0, 0\n vpchkf fs1, 1\n vpchkf fs2, 2\n vpchkf fs3, 3\n vpchkf fs4, 4\n vpchkf fs5, 5\n vpchkf fs6, 6\n vpchkf fs7, 7\n vpchkf fs8, 8\n vpchkf fs9, 9\n vpchkf fs10, 10\n vpchkf fs11, 11\n"
	"sd t1, 168(t0)\n la t0, vp_save\n ld ra, 0(t0)\n ld sp, 8(t0)\n"
	"ld s0, 16(t0)\n ld s1, 24(t0)\n ld s2, 32(t0)\n ld s3, 40(t0)\n ld s4, 48(t0)\n ld s5, 56(t0)\n ld s6, 64(t0)\n ld s7, 72(t0)\n ld s8, 80(t0)\n ld s9, 88(t0)\n ld s10, 96(t0)\n ld s11, 104(t0)\n"
	"fld fs0, 112(t0)\n fld fs1, 120(t0)\n fld fs2, 128(t0)\n fld fs3, 136(t0)\n fld fs4, 144(t0)\n fld fs5, 152(t0)\n fld fs6, 160(t0)\n fld fs7, 168(t0)\n fld fs8, 176(t0)\n fld fs9, 184(t0)\n fld fs10, 192(t0)\n fld fs11, 200(t0)\n"
	"ret\n"
);
void vp_invoke0(void *, struct vp_img *);
void vp_invoke(void *fn, struct vp_img *im, void *ret, long nret) {
	vp_cur = im;
	vp_invoke0(fn, im);
	vp_i(16, im->bad);
	vp_b(1, &im->out[0], 16);
	vp_b(2, &im->out[2], 8);
	if (nret) vp_b(3, ret, nret);
}
