// A stand-in for the tools the bundled recipes run: records how it was called, plays a success or a failure.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
static void copySelf(char const* to)
{
	char b[65536];
	int in = open("/proc/self/exe", O_RDONLY), out = open(to, O_WRONLY | O_CREAT | O_TRUNC, 0755);
	long n;
	if(out < 0) { fprintf(stderr, "stub: cannot write %s\n", to); exit(4); }
	while((n = read(in, b, sizeof b)) > 0) if(write(out, b, n) != n) exit(5);
	close(in);
	close(out);
}
static void text(char const* to, char const* t)
{
	FILE* f = fopen(to, "w");
	if(!f) { fprintf(stderr, "stub: cannot write %s\n", to); exit(4); }
	fputs(t, f);
	fclose(f);
}
int main(int argc, char** argv)
{
	char const* log = getenv("STUB_LOG");
	char const* plan = getenv("STUB_PLAN");
	char const* me = strrchr(argv[0], '/');
	me = me ? me + 1 : argv[0];
	static char buf[1 << 20];
	size_t n = 0;
	int index = 0;
	FILE* f = fopen(log, "r");
	if(f) { int c; while((c = fgetc(f)) != EOF) if(c == '\x1e') ++index; fclose(f); }
	n += sprintf(buf + n, "%s", argv[0]);
	for(int k = 1; k < argc; ++k) n += snprintf(buf + n, sizeof buf - n - 4, "\x1f%s", argv[k]);
	buf[n++] = '\x1e';
	int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0644);
	if(write(fd, buf, n) != (long)n) return 6;
	close(fd);
	int at = -1;
	char kind[32] = "";
	if(plan) sscanf(plan, "%d:%31s", &at, kind);
	int failing = at == index;
	if(failing && strcmp(kind, "late") && strcmp(kind, "latesig"))
	{
		if(!strcmp(kind, "sig9")) raise(SIGKILL);
		if(!strcmp(kind, "sig11")) { signal(SIGSEGV, SIG_DFL); raise(SIGSEGV); }
		fprintf(stderr, "stub %s fails\n", me);
		return atoi(kind);
	}
	int link = 1, query = 0;
	char const* out = NULL;
	char const* std = NULL;
	for(int k = 1; k < argc; ++k)
	{
		if(!strcmp(argv[k], "-c")) link = 0;
		if(!strcmp(argv[k], "-dM")) query = 1;
		if(!strncmp(argv[k], "-std=", 5)) std = argv[k] + 5;
		if(!strcmp(argv[k], "-o") && k + 1 < argc) out = argv[k + 1];
	}
	if(!strcmp(me, "pkg-config") && argc == 3)
	{
		if(!strcmp(argv[1], "--cflags")) printf("-I/inc/%s -DLIB_%s \n", argv[2], argv[2]);
		else if(!strcmp(argv[1], "--libs-only-l")) printf("-l%s -lsub%s \n", argv[2], argv[2]);
		else if(!strcmp(argv[1], "--libs-only-L")) printf("-L/lib/%s \n", argv[2]);
		else return 7;
	}
	else if(!strcmp(me, "ar") || !strcmp(me, "myar")) { if(argc > 2) text(argv[2], "archive\n"); }
	else if(!strcmp(me, "pandoc")) printf("<section id=\"s\" class=\"level1\"><h1>Title</h1><p>text of %s</p></section>\n", argv[argc - 1]);
	else if(!strcmp(me, "xsltproc")) { char b[4096]; size_t t = 0; long k; while((k = read(0, b, sizeof b)) > 0) t += k; if(out) { char m[64]; sprintf(m, "html %zu\n", t); text(out, m); } }
	else if(!strcmp(me, "clang-tidy")) ;
	else if(!strcmp(me, "tool")) { if(out) text(out, "tool\n"); }
	else if(query)
	{
		// STUB_CXX: name=default:newest;...
		static struct { char const* n; int v; } const revs[] = {{"c++98", 199711}, {"c++11", 201103}, {"c++14", 201402}, {"c++17", 201703}, {"c++20", 202002}, {"c++23", 202302}};
		char const* e = getenv("STUB_CXX");
		char key[64];
		int def = 201703, newest = 202302;
		snprintf(key, sizeof key, ";%s=", me);
		if(e) { char const* p = strstr(e, key); if(p) sscanf(p + strlen(key), "%d:%d", &def, &newest); }
		if(std)
		{
			def = 0;
			for(int k = 0; k < 6; ++k) if(!strcmp(std, revs[k].n)) def = revs[k].v;
			if(!def || def > newest) { fprintf(stderr, "unsupported\n"); return 1; }
		}
		printf("#define X 1\n#define __cplusplus %dL\n#define __GNUC__ 9\n", def);
	}
	else if(out) { if(link) copySelf(out); else text(out, "object\n"); }
	if(failing) { if(!strcmp(kind, "latesig")) raise(SIGTERM); return 9; }
	return 0;
}
