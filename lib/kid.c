// kid SIDE MODE STEP...: a process that follows a script (see spec/PipeFn.tla); everything it reads also goes to SIDE
// kid args A...: writes each argument followed by a null
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <sys/resource.h>
static unsigned char mode;
static unsigned char at(int s, unsigned long i) { // byte i of stream s (1: own output, 2: own error output)
  unsigned long u = i/4; int k = i%4;
  if (mode=='u') { unsigned c = 0x10000+((unsigned)s<<18)+u; return k==0? 0xF0|c>>18 : 0x80|((c>>(6*(3-k)))&63); }
  if (mode=='a') return k==0? 0x60+s : 0x20+((u>>(6*(3-k)))&63);
  return k==0? 0xFD+s : u>>(8*(k-1));
}
static int side;
static void put(int fd, const unsigned char* b, size_t n) {
  while (n) { ssize_t w = write(fd, b, n); if (w<0) { if (errno==EINTR) continue; _exit(99); } b+=w; n-=w; }
}
static void own(int fd, int s, unsigned long* from, size_t n) {
  unsigned char b[65536];
  while (n) { size_t m = n<sizeof b? n : sizeof b; for (size_t i = 0; i < m; i++) b[i] = at(s, *from+i); put(fd, b, m); *from+= m; n-= m; }
}
static void nap(int ms) { struct timespec t = {ms/1000, ms%1000*1000000L}; nanosleep(&t, NULL); }
int main(int c, char** v) {
  if (c>1 && !strcmp(v[1],"args")) { for (int i = 2; i < c; i++) { fputs(v[i], stdout); putchar(0); } fflush(stdout); return 0; }
  struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE, &rl);
  side = open(v[1], O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC, 0600); if (side<0) return 98;
  mode = v[2][0];
  char open_[3] = {1,1,1};
  unsigned long on = 0, en = 0;
  for (int p = 3; p < c; p++) {
    char o = v[p][0]; long k = atol(v[p]+1);
    if (o=='r' || o=='R' || o=='E') {
      if (!open_[0]) continue;
      unsigned char b[65536]; size_t left = o=='R'? ~(size_t)0 : k;
      while (left) {
        ssize_t n = read(0, b, left<sizeof b? left : sizeof b);
        if (n<0) { if (errno==EINTR) continue; return 97; }
        if (n==0) break;
        left-= n; put(side, b, n);
        if (o=='E' && open_[1]) put(1, b, n);
      }
    } else if (o=='o') { if (open_[1]) own(1, 1, &on, k); }
    else if (o=='e') { if (open_[2]) own(2, 2, &en, k); }
    else if (o=='c') { close(k); open_[k] = 0; }
    else if (o=='s') nap(k);
    else if (o=='x') _exit(k);
    else if (o=='k') { signal(k, SIG_DFL); raise(k); }
    else if (o=='g') { if (open_[1]) { pid_t f = fork(); if (!f) { close(0); close(2); nap(15); own(1, 1, &on, k); _exit(0); } on+= k; } }
  }
  _exit(0);
}
