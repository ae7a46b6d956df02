/* Stand-in for the assembler and the linker: records how it was called. */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>

static char buf[1 << 20];
static int slurp(const char *p)
{
	struct stat st;
	buf[0] = 0;
	if (stat(p, &st) || !S_ISREG(st.st_mode)) return 0;
	FILE *f = fopen(p, "r");
	if (!f) return 0;
	buf[fread(buf, 1, sizeof buf - 1, f)] = 0;
	fclose(f);
	return 1;
}
static int id(void)
{
	char *q = strstr(buf, "vp_");
	return q ? atoi(q + 3) : 0;
}
int main(int argc, char **argv)
{
	const char *b = strrchr(argv[0], '/'); b = b ? b + 1 : argv[0];
	int as = strstr(b, "-as") != NULL;
	FILE *log = fopen(getenv("VP_LOG"), "a");
	const char *out = NULL, *in = NULL, *how = NULL;
	if (as) {
		for (int i = 1; i < argc; i++) {
			if (!strcmp(argv[i], "-o")) out = argv[++i];
			else if (argv[i][0] != '-' || !argv[i][1]) in = argv[i];
		}
		int ok = in && slurp(in), n = id();
		if (!ok && in && strstr(in, "in")) n = atoi(strstr(in, "in") + 2);
		fprintf(log, "as\t%d\n", n);
		if (!ok) how = "fail";
		if (strstr(buf, "FAILAS")) how = getenv("VP_AS");
		fclose(log);
		if (how && !strcmp(how, "kill")) raise(SIGKILL);
		if (how || !out) return 1;
		FILE *f = fopen(out, "w");
		if (!f) return 1;
		fprintf(f, "OBJ vp_%d\n", n);
		return fclose(f) ? 1 : 0;
	}
	fprintf(log, "ld\t%d\n", argc);
	for (int i = 1; i < argc; i++) {
		int ok = slurp(argv[i]);
		fprintf(log, "arg\t%d\t%s\n", ok && !strncmp(buf, "OBJ", 3) ? id() : 0, argv[i]);
		if (!strcmp(argv[i], "-o")) out = argv[i + 1];
	}
	fclose(log);
	how = getenv("VP_LD");
	if (how && !strcmp(how, "kill")) raise(SIGKILL);
	if (how && !strcmp(how, "fail")) return 1;
	FILE *f = fopen(out, "w");
	if (!f) return 1;
	fprintf(f, "EXE\n");
	return fclose(f) ? 1 : 0;
}
