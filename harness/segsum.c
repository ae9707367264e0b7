/* Identity of the System V shared memory segment under a key, zero pages left out; 0 when there is no segment.
   Only pages already in use are looked at, so that looking does not allocate any. */
#define _GNU_SOURCE
#include <sys/ipc.h>
#include <sys/shm.h>
#include <sys/mman.h>
#include <stdlib.h>
#include <string.h>
unsigned long segsum(int key) {
  struct shmid_ds ds;
  int id = shmget(key, 0, 0);
  if (id < 0 || shmctl(id, IPC_STAT, &ds) < 0) return 0;
  char *at = shmat(id, NULL, SHM_RDONLY);
  if (at == (char *)-1) return 0;
  size_t n = ds.shm_segsz / 4096;
  unsigned char *v = malloc(n);
  unsigned long sum = 1469598103934665603UL;
  if (!mincore(at, n * 4096, v))
    for (size_t p = 0; p < n; p++) {
      if (!(v[p] & 1)) continue;
      unsigned long *w = (unsigned long *)(at + p * 4096), h = 0, any = 0;
      for (int k = 0; k < 512; k++) { any |= w[k]; h = (h ^ w[k]) * 1099511628211UL; h ^= h >> 29; }
      if (any) { sum ^= h ^ p * 0x9e3779b97f4a7c15UL; sum *= 1099511628211UL; sum ^= sum >> 31; }
    }
  free(v);
  shmdt(at);
  return sum ? sum : 1;
}
/* remove the segment, whatever the program under test did */
void segrm(int key) {
  int id = shmget(key, 0, 0);
  if (id >= 0) shmctl(id, IPC_RMID, NULL);
}
