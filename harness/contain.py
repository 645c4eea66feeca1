#!/usr/bin/env python3
"""contain.py DIR... -- CMD...: runs a command that can change files below the directories only (Landlock), and exits 97 if that can't be had."""
import ctypes, os, struct, sys

EXECUTE, WRITE, READ, READDIR, RMDIR, RM, CHAR, DIR, REG, SOCK, FIFO, BLOCK, SYM, REFER, TRUNC = (1 << i for i in range(15))


def contain(dirs):
    libc = ctypes.CDLL(None, use_errno=True)
    abi = libc.syscall(444, None, ctypes.c_size_t(0), ctypes.c_uint32(1))
    if abi < 2:
        return False
    rights = WRITE | RMDIR | RM | CHAR | DIR | REG | SOCK | FIFO | BLOCK | SYM | REFER | (TRUNC if abi >= 3 else 0)
    attr = struct.pack("Q", rights)
    fd = libc.syscall(444, ctypes.c_char_p(attr), ctypes.c_size_t(len(attr)), ctypes.c_uint32(0))
    if fd < 0:
        return False
    for d in dirs:
        if not os.path.exists(d):
            continue
        p = os.open(d, os.O_PATH | os.O_CLOEXEC)
        r = rights if os.path.isdir(d) else rights & (WRITE | TRUNC)
        if libc.syscall(445, fd, ctypes.c_int(1), ctypes.c_char_p(struct.pack("=Qi", r, p)), ctypes.c_uint32(0)) != 0:
            return False
        os.close(p)
    if libc.prctl(38, 1, 0, 0, 0) != 0 or libc.syscall(446, fd, ctypes.c_uint32(0)) != 0:
        return False
    return True


if __name__ == "__main__":
    i = sys.argv.index("--")
    if not contain(sys.argv[1:i] + ["/dev/null", "/dev/tty"]):
        sys.exit(97)
    if sys.argv[i + 1] == "true":
        sys.exit(0)
    os.execvp(sys.argv[i + 1], sys.argv[i + 1:])
