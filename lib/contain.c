// Linked into the generator under test: run as root, it first becomes an unprivileged user, so whatever paths a changed generator
// writes to or removes, only the scratch directories of the checks can be affected.
#include <unistd.h>
#include <grp.h>
#include <sys/stat.h>
__attribute__((constructor(101))) static void v_contain(void)
{
  if (geteuid() != 0) return;
  umask(0);
  if (setgroups(0, 0)) {}
  if (setresgid(65534, 65534, 65534)) {}
  if (setresuid(65534, 65534, 65534)) {}
}
