"""Results computed in a process in which nothing else has run: a server process that forks a child for every request."""
import atexit, os, pickle, struct, subprocess, sys

SERVER = {}


def read(f, n):
    b = b""
    while len(b) < n:
        c = os.read(f, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def receive(f):
    return pickle.loads(read(f, struct.unpack("<q", read(f, 8))[0]))


def send(f, x):
    b = pickle.dumps(x)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(f, b):]


def serve(i, o, functions):
    while True:
        try:
            name, case = receive(i)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                import warnings
                warnings.simplefilter("ignore")
                r = ("ok", functions[name](case))
            except BaseException as e:
                r = ("raised", type(e).__name__, str(e)[:300])
            try:
                send(o, r)
            except BaseException:
                os._exit(1)
            os._exit(0)
        if os.waitpid(pid, 0)[1]:
            send(o, ("raised", "exit", "the new process died"))


def ask(prop, name, case):
    s = SERVER.get(os.getpid())
    if s is None:
        a, b = os.pipe(), os.pipe()
        p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "run.py"), "--serve", prop, str(a[0]), str(b[1])], pass_fds=(a[0], b[1]), stdin=subprocess.DEVNULL)
        os.close(a[0])
        os.close(b[1])
        s = SERVER[os.getpid()] = (p, a[1], b[0])
    send(s[1], (name, case))
    return receive(s[2])
