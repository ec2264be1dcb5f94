"""Calls functions of listgen.py: one JSON array [function, arguments..] per line, answered by one line.

A string which begins with "path:" is given as a Path. Two packages which are not here are stood in for:
orjson by json, zstandard by plain files.
"""

import contextlib
import importlib.util
import io
import json
import pathlib
import sys
import types

sys.dont_write_bytecode = True

orjson = types.ModuleType("orjson")
orjson.loads = json.loads
orjson.dumps = lambda x, *_, **__: json.dumps(x, ensure_ascii=False).encode()
orjson.JSONDecodeError = json.JSONDecodeError
sys.modules["orjson"] = orjson


def plain_open(filename, mode="rb", cctx=None, dctx=None, encoding=None, errors=None, newline=None, closefd=None):
    if not isinstance(filename, (str, pathlib.Path)):
        return filename if "b" in mode else io.TextIOWrapper(filename, encoding=encoding or "utf-8", errors=errors, newline=newline)
    if "b" in mode:
        return open(filename, mode)
    return open(filename, mode, encoding=encoding or "utf-8", errors=errors, newline=newline)


class Plain:
    def __init__(self, *_, **__):
        pass

    def stream_reader(self, source, *_, **__):
        return source

    stream_writer = stream_reader

    def decompress(self, data, *_, **__):
        return data

    compress = decompress


zstandard = types.ModuleType("zstandard")
zstandard.open = plain_open
zstandard.ZstdDecompressor = zstandard.ZstdCompressor = Plain
zstandard.decompress = zstandard.compress = lambda data, *_, **__: data
sys.modules["zstandard"] = zstandard

spec = importlib.util.spec_from_file_location("listgen", sys.argv[1])
listgen = importlib.util.module_from_spec(spec)
sys.modules["listgen"] = listgen
spec.loader.exec_module(listgen)


def plain(x):
    if isinstance(x, listgen.Wordlist):
        return {"words": [[c, d[0], d[2]] for c, d in x.word_data.items()]}
    return x if x is None or isinstance(x, (str, int, float, bool, list)) else str(x)


def given(x):
    return pathlib.Path(x[5:]) if isinstance(x, str) and x.startswith("path:") else x


def wordlist(steps):
    """What becomes of word lists: each step is [number of the list, method, arguments..]"""
    lists = {}
    for which, method, *args in steps:
        if method == "new":
            lists[which] = listgen.Wordlist()
        elif method == "load":
            lists[which] = listgen.Wordlist.load(given(args[0]))
        elif method == "merge":
            lists[which].merge(lists[args[0]])
        elif method == "add_word":
            lists[which].add_word(word=args[0], score=args[1])
        else:
            getattr(lists[which], method)(*map(given, args))
    return [plain(lists[i]) for i in sorted(lists)]


def call(function, *args):
    if function == "each":
        return [plain(getattr(listgen, args[0])(x)) for x in args[1]]
    if function == "wordlist":
        return wordlist(args[0])
    return plain(getattr(listgen, function)(*map(given, args)))


for line in sys.stdin:
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            answer = {"is": call(*json.loads(line))}
        except Exception as e:
            answer = {"failed": f"{type(e).__name__}: {e}"}
    print(json.dumps(answer), flush=True)
