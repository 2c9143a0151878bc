"""Effects that no branch of the parsing functions may contain, whether or not the analysed
documents lead into it: a syntax query over the functions the analysis went through."""
import ast

EVAL = ("builtins.eval", "builtins.exec", "builtins.compile", "runpy.run_path", "runpy.run_module", "code.interact")
MODULES = ("subprocess", "socket", "ctypes", "multiprocessing", "asyncio.subprocess", "pty", "telnetlib", "ftplib",
           "smtplib", "urllib.request", "http.client", "pickle", "marshal", "shelve", "dbm", "webbrowser", "requests")
# names of those modules that do nothing outside the process
HARMLESS = ("subprocess.CalledProcessError", "subprocess.PIPE", "pickle.PickleError", "socket.error")
OS = {"os." + x for x in (
    "system popen remove unlink rmdir removedirs rename renames replace mkdir makedirs symlink link chmod chown kill "
    "killpg fork forkpty execl execle execlp execlpe execv execve execvp execvpe spawnl spawnle spawnlp spawnlpe spawnv "
    "spawnve spawnvp spawnvpe posix_spawn posix_spawnp startfile chdir fchdir chroot putenv unsetenv umask truncate utime "
    "write mkfifo mknod nice setuid setgid _exit abort").split()}
OTHER = {"shutil." + x for x in "rmtree move copy copy2 copyfile copytree copymode chown make_archive".split()} | {
    "builtins.print", "builtins.input", "builtins.breakpoint", "sys.setrecursionlimit", "sys.settrace",
    "sys.setprofile", "locale.setlocale", "signal.signal", "atexit.register", "tempfile.mkstemp", "tempfile.mkdtemp",
    "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "socket.setdefaulttimeout",
    "sys.stdout.write", "sys.stderr.write", "sys.stdout.writelines", "sys.stderr.writelines", "pprint.pprint",
    "traceback.print_exc", "logging.basicConfig"}
METHODS = ("write_text", "write_bytes", "unlink", "mkdir", "rmdir", "touch", "symlink_to", "hardlink_to", "chmod")


def imports(tree):
    """{local name: dotted name} of everything a module imports."""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = "%s.%s" % (n.module, a.name)
    return out


def bound(tree):
    """Names a module binds itself, anywhere."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
    return out


def off_flags(tree):
    """Module constants that are false: what they guard does not run."""
    out = {"TYPE_CHECKING"}
    for n in tree.body:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and not n.value.value:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    out.add(t.id)
    return out


def dotted(e, imp, own):
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, imp, own)
        return b + "." + e.attr if b else None
    if isinstance(e, ast.Name):
        if e.id in imp:
            return imp[e.id]
        if e.id not in own:
            return "builtins." + e.id
    return None


def effect(call, imp, own):
    """What a call does that parsing must not, if anything."""
    d = dotted(call.func, imp, own)
    if d:
        if d in EVAL:
            return None if call.args and isinstance(call.args[0], ast.Constant) else "%s() executes code" % d.split(".")[-1]
        if d in OS or d in OTHER:
            return "call of " + d.replace("builtins.", "")
        if d not in HARMLESS and any(d == m or d.startswith(m + ".") for m in MODULES):
            return "call of " + d
        if d in ("builtins.open", "io.open", "os.open", "codecs.open", "gzip.open"):
            mode = call.args[1] if len(call.args) > 1 else next((k.value for k in call.keywords if k.arg == "mode"), None)
            if isinstance(mode, ast.Constant) and isinstance(mode.value, str) and set(mode.value) & set("wax+"):
                return "open with mode %r" % mode.value
    if isinstance(call.func, ast.Attribute):
        if call.func.attr in METHODS and not (d and d.startswith("builtins.")):
            return "call of .%s()" % call.func.attr
        if call.func.attr == "open" and call.args and isinstance(call.args[0], ast.Constant) and \
                isinstance(call.args[0].value, str) and set(call.args[0].value) & set("wax+") and len(call.args[0].value) < 4:
            return "open with mode %r" % call.args[0].value
    return None


def forbidden(program, functions):
    """-> ([(where, line, what)], calls looked at) over the named functions (file, qualified name)."""
    out, count = [], 0
    for tree, rel, _ in program.modules.values():
        imp, own, off = imports(tree), bound(tree), off_flags(tree)

        def skip(n):
            t = n.test
            return isinstance(t, ast.Name) and t.id in off or isinstance(t, ast.Constant) and not t.value

        def walk(n, qual, live, inner=False):
            nonlocal count
            if isinstance(n, ast.If) and skip(n):
                for c in n.orelse:
                    walk(c, qual, live, inner)
                return
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q = (qual + "." if qual else "") + n.name
                isfn = not isinstance(n, ast.ClassDef)
                on = (rel, q) in functions if isfn and not inner else live
                for c in ast.iter_child_nodes(n):
                    walk(c, q, on, inner or isfn)
                return
            if live and isinstance(n, ast.Call):
                count += 1
                what = effect(n, imp, own)
                if what:
                    out.append(("%s:%s" % (rel, qual), n.lineno, what))
            for c in ast.iter_child_nodes(n):
                walk(c, qual, live, inner)
        walk(tree, "", False)
    return out, count


LONGEST = 1100       # lists longer than this are not built


def lengths(prog):
    """Lengths of lists to analyse: beyond every number the package may cut a list at."""
    return sorted({n + 2 for n in cutoffs(prog) if n < LONGEST})[-5:]


def cutoffs(prog):
    """Whole numbers above those of the ordinary scenarios that the package's code names,
    other than digit bases, colours, attribute defaults and bit masks."""
    found = {8, 128}
    for tree, _, _ in prog.modules.values():
        skip = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Call):
                f = node.func
                name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                if name == "int":
                    skip |= set(map(id, node.args[1:])) | {id(k.value) for k in node.keywords}
                elif name == "Color":
                    skip |= set(map(id, node.args)) | {id(k.value) for k in node.keywords}
            elif isinstance(node, ast.ClassDef):
                for b in node.body:
                    if isinstance(b, (ast.Assign, ast.AnnAssign)) and b.value is not None:
                        skip |= set(map(id, ast.walk(b.value)))
            elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr,
                                                                      ast.BitXor)):
                skip |= {id(node.left), id(node.right)}
            elif isinstance(node, ast.Constant) and id(node) not in skip and type(node.value) is int and \
                    node.value > 6:
                found.add(node.value)
    return found
