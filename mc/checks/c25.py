"""C25: reading input files.  Every calendar day on and beyond a month boundary in every date format, every mixture of formats over the rows of
a file, every cell content of an alphabet in every position, every layout (column order, letter case, spacing, comments, line ends, row order)
and every file shape (fields per row) is read by the real readers - directly, through the command line's file service and through whole models -
and must come back exactly as written or be rejected."""

import calendar
import itertools
import math
import os
import tempfile
from datetime import datetime, timedelta
from pathlib import Path

from libecalc.presentation.json_result.mapper import get_asset_result
from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
from libecalc.presentation.yaml.yaml_entities import MemoryResource

from mc.core import Prune, close
from mc.e2e import D, csv, fuel, run as run_model

# name -> (family, has time, documented, writer(y, m, d, H, M, S))
FORMATS = {}
for sep in ".-/":
    FORMATS[f"Y{sep}m{sep}d"] = ("iso", False, True, lambda y, m, d, H, M, S, s=sep: f"{y:04}{s}{m:02}{s}{d:02}")
    FORMATS[f"Y{sep}m{sep}d H:M:S"] = ("iso", True, True, lambda y, m, d, H, M, S, s=sep: f"{y:04}{s}{m:02}{s}{d:02} {H:02}:{M:02}:{S:02}")
    FORMATS[f"d{sep}m{sep}Y"] = ("eu", False, True, lambda y, m, d, H, M, S, s=sep: f"{d:02}{s}{m:02}{s}{y:04}")
    FORMATS[f"d{sep}m{sep}Y H:M:S"] = ("eu", True, True, lambda y, m, d, H, M, S, s=sep: f"{d:02}{s}{m:02}{s}{y:04} {H:02}:{M:02}:{S:02}")
    FORMATS[f"Y{sep}1{sep}1"] = ("iso", False, False, lambda y, m, d, H, M, S, s=sep: f"{y:04}{s}{m}{s}{d}")
    FORMATS[f"1{sep}1{sep}Y"] = ("eu", False, False, lambda y, m, d, H, M, S, s=sep: f"{d}{s}{m}{s}{y:04}")
FORMATS["YTHMS"] = ("iso", True, False, lambda y, m, d, H, M, S: f"{y:04}-{m:02}-{d:02}T{H:02}:{M:02}:{S:02}")
FORMATS["Y-m-d H:M:S.f"] = ("iso", True, False, lambda y, m, d, H, M, S: f"{y:04}-{m:02}-{d:02} {H:02}:{M:02}:{S:02}.000")
FORMATS["Y-m-d H:M:SZ"] = ("iso", True, False, lambda y, m, d, H, M, S: f"{y:04}-{m:02}-{d:02} {H:02}:{M:02}:{S:02}Z")
FORMATS["Y-m-d H:M:S+00:00"] = ("iso", True, False, lambda y, m, d, H, M, S: f"{y:04}-{m:02}-{d:02} {H:02}:{M:02}:{S:02}+00:00")
FORMATS["Y-m-d H:M"] = ("iso", True, False, lambda y, m, d, H, M, S: f"{y:04}-{m:02}-{d:02} {H:02}:{M:02}")
FORMATS["d.m.Y H:M"] = ("eu", True, False, lambda y, m, d, H, M, S: f"{d:02}.{m:02}.{y:04} {H:02}:{M:02}")
FORMATS["d.m.YTH:M:S"] = ("eu", True, False, lambda y, m, d, H, M, S: f"{d:02}.{m:02}.{y:04}T{H:02}:{M:02}:{S:02}")
FORMATS["1/1/Y H:M"] = ("eu", True, False, lambda y, m, d, H, M, S: f"{d}/{m}/{y:04} {H}:{M:02}")
FORMATS["d/m.Y"] = ("eu", False, False, lambda y, m, d, H, M, S: f"{d:02}/{m:02}.{y:04}")
FORMATS["d.m.y"] = ("eu", False, False, lambda y, m, d, H, M, S: f"{d:02}.{m:02}.{y % 100:02}")
FORMATS["Ymd"] = ("iso", False, False, lambda y, m, d, H, M, S: f"{y:04}{m:02}{d:02}")
FORMATS["Y-m"] = ("iso", False, False, lambda y, m, d, H, M, S: f"{y:04}-{m:02}")
FORMATS["Y.m"] = ("iso", False, False, lambda y, m, d, H, M, S: f"{y:04}.{m:02}")
FORMATS["d Mon Y"] = ("eu", False, False, lambda y, m, d, H, M, S: f"{d} {calendar.month_abbr[m] if 1 <= m <= 12 else 'Xyz'} {y:04}")
FORMATS["d.m.Y AM"] = ("eu", True, False, lambda y, m, d, H, M, S: f"{d:02}.{m:02}.{y:04} {H:02}:{M:02} {'AM' if H < 12 else 'PM'}")
YEAR = "Y"
FORMATS[YEAR] = ("year", False, True, lambda y, m, d, H, M, S: f"{y:04}")
DOCUMENTED = [n for n, f in FORMATS.items() if f[2]]


def written(fmt, y, m, d, H=0, M=0, S=0):
    """-> (text, the instant it denotes or None if there is no such instant)"""
    fam, timed, _, w = FORMATS[fmt]
    try:
        text = w(y, m, d, H, M, S)
    except Exception:  # noqa: BLE001
        return None, None
    try:
        if fmt == YEAR:
            when = datetime(y, 1, 1)
        elif fmt in ("Y-m", "Y.m"):
            when = datetime(y, m, 1)
        elif not timed:
            when = datetime(y, m, d)
        elif ":S" in fmt or fmt == "YTHMS":
            when = datetime(y, m, d, H, M, S)
        else:
            when = datetime(y, m, d, H, M)
    except ValueError:
        when = None
    return text, when


def read_ts(text):
    r = TimeSeriesResource(MemoryResource.from_string(text, allow_nans=True)).validate()
    return r


def read(text):
    """-> (times, {column: values}) or the error"""
    try:
        r = read_ts(text)
        return list(r.get_time_vector()), {h: [float(x) for x in r.get_column(h)] for h in r.get_headers()}, None
    except Exception as e:  # noqa: BLE001
        return None, None, e


def acceptable_error(e):
    from libecalc.common.errors.exceptions import EcalcError, IllegalStateException

    return isinstance(e, EcalcError) and not isinstance(e, IllegalStateException)


# cell text -> number, None (missing) or REJECT
REJECT = object()
CELLS = {
    "1": 1.0, "0": 0.0, "-2.5": -2.5, "+4": 4.0, "1e3": 1000.0, "1.5E-3": 0.0015, " 7 ": 7.0, "007": 7.0, "1 000": 1000.0, "10 000.5": 10000.5, ".5": 0.5, "5.": 5.0,
    "0.1": 0.1, "15435.484": 15435.484, "1234567890.123456": 1234567890.123456, "0.30000000000000004": 0.30000000000000004, "9007199254740993": 9007199254740993.0,
    "": None, "NA": None, "NaN": None, "null": None,
    "abc": REJECT, "--1": REJECT, "1.2.3": REJECT, "TRUE": REJECT, "False": REJECT, "true": REJECT, "0x10": REJECT, "1e": REJECT, "5%": REJECT, "1;2": REJECT, '"1,5"': REJECT, "-": REJECT, "2020-01-01": REJECT, "1/2": REJECT, "1 kg": REJECT,
}  # fmt: skip


def run(ck):
    ck.bounds.update(
        formats=len(FORMATS),
        days="0..32 x months 0..32 x boundary years",
        rows="1..3",
        columns="1..3",
        cells=len(CELLS),
        layouts="column order x header case x spacing x comments x line ends x row order",
    )
    ck.assumptions += [
        "pandas' tokenizer is part of the system under test; the readings are compared with Python's float() and datetime()",
        "texts Python's own float() accepts beyond the usual notation (1_000, unicode digits, inf) are left out of the cell alphabet",
    ]

    def one_date(t):
        fmt = t.pick("format", list(FORMATS))
        y = t.pick("year", ck.q([2023, 2024, 1900], [2023, 2024, 1900, 2000, 1999, 2100, 1960, 2299]))
        days = [1, 2, 12, 13, 28, 29, 30, 31, 32, 0] if ck.quick else list(range(33))
        d = t.pick("day", days)
        months = [1, 2, 3, 4, 11, 12, 13, 28, 29, 31, 0] if ck.quick else list(range(33))
        m = t.pick("month", months)
        clocks = [(0, 0, 0), (23, 59, 59), (12, 30, 0), (24, 0, 0), (10, 60, 0), (0, 0, 1)] if FORMATS[fmt][1] else [(0, 0, 0)]
        H, M, S = t.pick("clock", clocks)
        text, when = written(fmt, y, m, d, H, M, S)
        if text is None:
            raise Prune
        for quoted in (False, True) if (d, m) == (2, 3) else (False,):
            cell = f'"{text}"' if quoted else text
            times, cols, e = read(f"DATE,A\n{cell},7\n")
            t.step()
            t.outcome((fmt, e is None, when is None))
            if e is None:
                t.check(when is not None, f"'{text}' is not a date but was read as {times}")
                t.same(times, [when], f"date '{text}'")
                t.check(times[0].tzinfo is None, f"'{text}' read with a time zone")
                t.same(cols, {"A": [7.0]}, "columns")
            else:
                t.check(acceptable_error(e), f"'{text}': {type(e).__name__}: {e}")
                t.check(not (FORMATS[fmt][2] and when is not None), f"documented date '{text}' rejected: {e}")
        t.state(fmt, y, m, d, H)

    def mixed(t):
        n = t.pick("rows", ck.q([2, 3], [2, 3, 4]))
        base = DOCUMENTED if n > 2 else list(FORMATS)
        if n == 3 and ck.quick:
            base = ["Y.m.d", "Y-m-d H:M:S", "d/m/Y", "d.m.Y", "d.m.Y H:M:S", YEAR]
        if n == 4:
            base = ["Y.m.d", "Y-m-d H:M:S", "d/m/Y", "d.m.Y H:M:S", YEAR]
        dates = [(2024, 1, 2), (2024, 2, 1), (2023, 12, 31), (2025, 2, 28), (2024, 12, 13)] if n == 2 else [(2024, 1, 2), (2024, 2, 1), (2023, 12, 31)]
        rows = []
        for i in range(n):
            f = t.pick(f"format {i}", base)
            dt = t.pick(f"date {i}", dates)
            H, M, S = (13, 5, 9) if i == 1 else (0, 0, 0)
            text, when = written(f, *dt, H, M, S)
            rows.append((f, text, when))
        values = t.pick("values", [[10.0, 20.0, 30.0, 40.0], [10, 20, 30, 40], [1.5, 20, 30, 2.25]])
        times, cols, e = read("DATE,A\n" + "".join(f"{r[1]},{v}\n" for r, v in zip(rows, values)))
        kinds = {(FORMATS[r[0]][0], FORMATS[r[0]][1]) for r in rows}
        documented = all(FORMATS[r[0]][2] for r in rows)
        whens = [r[2] for r in rows]
        t.outcome((len(kinds), e is None))
        t.state(*(r[0] for r in rows))
        if e is None:
            t.same(times, whens, f"dates {[r[1] for r in rows]}")
            t.same(cols["A"], [float(v) for v in values[:n]], "values")
            t.check(len(set(whens)) == n, f"duplicate dates accepted {[r[1] for r in rows]}")
            t.check(len(kinds) == 1, f"mixed formats accepted {[r[1] for r in rows]}")
        else:
            t.check(acceptable_error(e), f"{type(e).__name__}: {e}")
            if documented and len({r[0] for r in rows}) == 1 and len(set(whens)) == n:
                t.fail(f"consistent dates {[r[1] for r in rows]} rejected: {e}")

    def cells(t):
        """cell alphabet in every position of a table"""
        kind = t.pick("kind", ["time series", "facility"])
        ncol = t.pick("columns", ck.q([1, 2], [1, 2, 3]))
        nrow = t.pick("rows", [1, 2, 3])
        pos = [(r, c) for r in range(nrow) for c in range(ncol)]
        where = t.pick("cell", pos)
        what = t.pick("text", list(CELLS))
        other = t.pick("another cell", [p for p in [None, *pos] if p != where]) if (nrow > 1 or ncol > 1) else None
        what2 = t.pick("its text", list(CELLS) if not ck.quick else ["1 000", "2.5", "", "abc", "TRUE", "False", "1e3"]) if other else None
        if what2 == "2.5":
            val2 = 2.5
        else:
            val2 = CELLS.get(what2)
        filler = [[f"{3 + r + 10 * c}" for c in range(ncol)] for r in range(nrow)]
        exp = [[float(x) for x in row] for row in filler]
        for p, txt, val in ((where, what, CELLS[what]), (other, what2, val2)):
            if p:
                filler[p[0]][p[1]] = txt
                exp[p[0]][p[1]] = val
        names = ["A", "B", "C"][:ncol]
        bad = any(v is REJECT for row in exp for v in row)
        missing = any(v is None for row in exp for v in row)
        if kind == "facility":
            # a row without anything is a blank line
            if ncol == 1 and any(x.strip() == "" for row in filler for x in row):
                raise Prune
            text = csv(names, filler)
            try:
                r = MemoryResource.from_string(text, allow_nans=False)
                got = {h: r.get_float_column(h) for h in names}
            except Exception as e:  # noqa: BLE001
                t.check(acceptable_error(e), f"{type(e).__name__}: {e}")
                t.check(bad or missing, f"{text!r} rejected: {e}")
                t.outcome("rejected")
                return
            t.check(not (bad or missing), f"{text!r} read as {got}")
        else:
            text = csv(["DATE", *names], [[2020 + i, *row] for i, row in enumerate(filler)])
            times, got, e = read(text)
            if e is not None:
                t.check(acceptable_error(e), f"{type(e).__name__}: {e}")
                t.check(bad, f"{text!r} rejected: {e}")
                t.outcome("rejected")
                return
            t.check(not bad, f"{text!r} read as {got}")
            t.same(times, [D(2020 + i) for i in range(nrow)], "dates")
        t.outcome("read")
        t.same(got, {n: [math.nan if row[c] is None else row[c] for row in exp] for c, n in enumerate(names)}, f"{text!r}", rel=0, abs_=0)
        t.state(kind, ncol, nrow, where, what)

    VAL = {"A": [1.5, 2.5, 3.5], "Bx": [10.0, 20.0, 30.0], "c d": [7.0, 8.0, 9.0]}
    TIMES = [datetime(2020, 2, 1), datetime(2021, 1, 12), datetime(2022, 12, 3)]

    def layout(t):
        kind = t.pick("kind", ["time series", "facility"])
        order = t.pick("column order", list(itertools.permutations(range(4 if kind == "time series" else 3))))
        case = t.pick("header case", ["as is", "lower", "upper"])
        rows = t.pick("row order", list(itertools.permutations(range(3))))
        spacing = t.pick("spacing", ["none", "after comma", "around", "tabs" if False else "before"])
        comment = t.pick("comments", ["none", "first line", "after header", "between rows", "end of rows", "end of header", "everywhere", "commas"])
        newline = t.pick("line ends", ["\n", "\r\n", "no final", "blank lines"])
        date_name = t.pick("date header", ["DATE", "DATES"]) if kind == "time series" else None
        quotes = t.pick("quotes", [False, True])
        fmt = t.pick("date format", ["Y.m.d", "d/m/Y", YEAR, "d.m.Y H:M:S"]) if kind == "time series" else None
        if ck.quick:
            unusual = sum([case != "as is", spacing != "none", comment != "none", newline != "\n", quotes, date_name == "DATES"])
            if unusual > 2 or (rows != (0, 1, 2) and unusual > 1):
                raise Prune
        names = list(VAL)
        heads = {n: n for n in names}
        conv = {"as is": str, "lower": str.lower, "upper": str.upper}[case]
        cols = [[conv(n), *[repr(v) for v in VAL[n]]] for n in names]
        whens = TIMES
        if kind == "time series":
            whens = [D(x.year) if fmt == YEAR else x for x in TIMES]
            cols.append([conv(date_name), *[written(fmt, x.year, x.month, x.day)[0] for x in TIMES]])
        cols = [cols[i] for i in order]
        table = [[c[0] for c in cols], *[[c[1 + r] for c in cols] for r in rows]]
        if quotes:
            table[0] = [f'"{x}"' for x in table[0]]
        sepr = {"none": ",", "after comma": ",  ", "around": " , ", "before": " ,"}[spacing]
        if spacing in ("around", "before") and kind == "time series" and not order[-1] == 3 and quotes is False:
            # a blank after a date makes it another text: rejecting is fine, handled below
            pass
        lines = [sepr.join(row) for row in table]
        c = "# a, b" if comment == "commas" else "# note"
        if comment in ("end of rows", "everywhere", "commas"):
            lines = [lines[0], *[f"{x} {c}" if i == 1 else f"{x}{c}" for i, x in enumerate(lines[1:])]]
        if comment in ("end of header", "everywhere"):
            lines[0] += f" {c}"
        if comment in ("between rows", "everywhere"):
            lines.insert(2, c)
        if comment in ("after header", "everywhere", "commas"):
            lines.insert(1, c)
        if comment in ("first line", "everywhere"):
            lines.insert(0, c)
        if newline == "blank lines":
            lines = [x for line in lines for x in (line, "")]
        text = ("\r\n" if newline == "\r\n" else "\n").join(lines) + ("" if newline == "no final" else "\n")
        perm = [[VAL[n][r] for r in rows] for n in names]
        try:
            if kind == "facility":
                r = MemoryResource.from_string(text, allow_nans=False)
                for n, v in zip(names, perm):
                    for asked in (n, n.lower(), n.upper()):
                        t.same(r.get_float_column(asked), v, f"column {asked} of {text!r}", rel=0, abs_=0)
                t.same(sorted(h.lower() for h in r.get_headers()), sorted(n.lower() for n in names), "headers")
            else:
                r = read_ts(text)
                t.same(list(r.get_time_vector()), [whens[i] for i in rows], f"dates of {text!r}")
                for n, v in zip(names, perm):
                    for asked in (n, n.lower(), n.upper()):
                        t.same([float(x) for x in r.get_column(asked)], v, f"column {asked} of {text!r}", rel=0, abs_=0)
                t.same(sorted(h.lower() for h in r.get_headers()), sorted(n.lower() for n in names), "headers")
            t.outcome("read")
        except Exception as e:  # noqa: BLE001
            from mc.core import Violation

            if isinstance(e, Violation):
                raise
            t.outcome("rejected")
            t.check(acceptable_error(e), f"{type(e).__name__}: {e}")
            # text cells (dates) followed by blanks or a quoted header after blanks may be refused
            trailing = kind == "time series" and fmt != YEAR and (spacing in ("around", "before") or comment in ("end of rows", "commas", "everywhere"))
            t.check(trailing, f"{text!r} rejected: {e}")
        t.state(kind, order, rows)

    def shape(t):
        """number of fields on each line"""
        kind = t.pick("kind", ["time series", "facility"])
        ncol = t.pick("columns", [1, 2, 3])
        n = t.pick("rows", [0, 1, 2, 3])
        widths = [t.pick(f"fields {i}", [0, 1, 2, 3, 4]) for i in range(n)]
        extra = t.pick("fields beyond the header are", ["numbers", "empty"]) if any(w > ncol for w in widths) else "numbers"
        start = t.pick("first values", ["years", "0..", "text"] if kind == "time series" else ["0..", "years", "text"])
        header = (["DATE", "A", "B"] if kind == "time series" else ["A", "B", "C"])[:ncol]

        def first(i):
            return {"years": str(2020 + i), "0..": str(i), "text": f"{i + 1:02}.01.2020"}[start]

        lines = [[first(i) if j == 0 else ("" if extra == "empty" and j >= ncol else str(100 * j + i)) for j in range(w)] for i, w in enumerate(widths)]
        text = ",".join(header) + "\n" + "".join(",".join(x) + "\n" for x in lines)
        kept = [(i, x) for i, x in enumerate(lines) if x]
        too_long = any(len(x) > ncol and any(v != "" for v in x[ncol:]) for _, x in kept)
        long_ = any(len(x) > ncol for _, x in kept)
        short = any(len(x) < ncol for _, x in kept)
        want = {h: [float(x[j]) if j < len(x) and not (j == 0 and start == "text") else math.nan for _, x in kept] for j, h in enumerate(header)}
        t.outcome((kind, too_long, short, len(kept)))
        if kind == "facility":
            try:
                r = MemoryResource.from_string(text, allow_nans=False)
                got = {h: r.get_float_column(h) for h in r.get_headers()}
            except Exception as e:  # noqa: BLE001
                t.check(acceptable_error(e), f"{text!r}: {type(e).__name__}: {e}")
                t.check(long_ or short or start == "text" or not kept, f"{text!r} rejected: {e}")
                return
            t.check(not (too_long or short or (start == "text" and kept)), f"{text!r} read as {got}")
            t.same(got, want, f"{text!r}", rel=0, abs_=0)
        else:
            times, got, e = read(text)
            if e is not None:
                t.check(acceptable_error(e), f"{text!r}: {type(e).__name__}: {e}")
                t.check(long_ or ncol == 1 or start == "0.." or not kept, f"{text!r} rejected: {e}")
                return
            t.check(not too_long, f"{text!r} read as {times} {got}")
            t.check(ncol > 1 and kept, f"{text!r} without data read as {times} {got}")
            t.check(start != "0..", f"{text!r} read as {times} {got}")
            t.same(times, [D(2020 + i) if start == "years" else datetime(2020, 1, i + 1) for i, _ in kept], f"dates of {text!r}")
            want.pop("DATE")
            t.same(got, want, f"{text!r}", rel=0, abs_=0)
        t.state(kind, ncol, tuple(widths), start)

    def headers(t):
        """headers: which are allowed, and which column is the date column"""
        pool = ["DATE", "DATES", "date", "Dates", "A", "a", "", "1x", "År", "B_1.x-#+:/"]
        n = t.pick("columns", [1, 2, 3])
        hs = [t.pick(f"header {i}", pool) for i in range(n)]
        if len(set(hs)) < n:
            raise Prune
        years = [str(2000 + 10 * j) for j in range(n)]
        dated = t.pick("date column", [None, *range(n)])
        row = [f"{years[j]}" if j == dated or dated is None else str(3 + j) for j in range(n)]
        row2 = [str(int(x) + 1) for x in row]
        text = ",".join(hs) + "\n" + ",".join(row) + "\n" + ",".join(row2) + "\n"
        times, got, e = read(text)
        # '#' starts a comment
        names = []
        for h in hs:
            if "#" in h:
                names.append(h.split("#")[0])
                break
            names.append(h)
        legal = len(names) == n and all(x and x[0].isascii() and x[0].isalpha() for x in names) and all(x.isascii() for x in names)
        date_col = next((j for key in ("DATE", "DATES") for j in [*[i for i, x in enumerate(hs) if x == key], *[i for i, x in enumerate(hs) if x.upper() == key]]), 0)
        t.outcome((legal, e is None))
        if e is not None:
            t.check(acceptable_error(e), f"{text!r}: {type(e).__name__}: {e}")
            t.check(not legal or n == 1 or (dated is not None and dated != date_col), f"{text!r} rejected: {e}")
            return
        t.check(legal, f"{text!r} read as {times} {got}")
        t.check(n > 1, f"{text!r}: no columns")
        t.check(dated in (None, date_col), f"{text!r}: column '{hs[date_col]}' is not dates, read as {times} {got}")
        t.same(times, [D(int(row[date_col])), D(int(row2[date_col]))], f"dates of {text!r}")
        t.same(got, {h: [float(row[j]), float(row2[j])] for j, h in enumerate(names) if j != date_col}, f"{text!r}")
        t.state(tuple(hs))

    UNITS = {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}
    FACILITY = {
        "genset": (["POWER", "FUEL"], [[0, 0], [10, 100], [20, 150.5]], {"TYPE": "ELECTRICITY2FUEL"}),
        "sampled": (["RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE", "POWER"], [[100, 5, 30, 5], [500, 5, 30, 9], [100, 20, 90, 7], [500, 20, 90.5, 20], [100, 5, 90, 11]], {"TYPE": "COMPRESSOR_TABULAR"}),
        "sampled fuel": (["RATE", "POWER", "FUEL"], [[100, 5, 300], [250, 9, 500.5], [400, 12, 900]], {"TYPE": "COMPRESSOR_TABULAR"}),
        "tabulated": (["RATE", "PRES", "POWER"], [[1, 1, 5], [500, 1, 9], [1, 90, 7], [500, 90, 20.5]], {"TYPE": "TABULAR"}),
        "pump single": (["RATE", "HEAD", "EFFICIENCY"], [[50, 4000, 0.5], [300, 3000, 0.8], [600, 1500.5, 0.6]], {"TYPE": "PUMP_CHART_SINGLE_SPEED", "UNITS": UNITS}),
        "pump variable": (["SPEED", "RATE", "HEAD", "EFFICIENCY"], [[1000, 60, 900, 0.5], [1000, 300, 500, 0.6], [3000, 150, 3800, 0.6], [3000, 500, 3000, 0.8], [3000, 800.5, 1200, 0.7]], {"TYPE": "PUMP_CHART_VARIABLE_SPEED", "UNITS": UNITS}),
    }  # fmt: skip

    def asset(kind, text, directory=None, ts=None):
        gen = csv(["POWER", "FUEL"], [[0, 0], [500, 5000]])
        model = {
            "genset": {"TYPE": "DIRECT", "LOAD": "S;Q {/} 40"},
            "sampled": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "f", "RATE": "S;Q", "SUCTION_PRESSURE": 8, "DISCHARGE_PRESSURE": 60},
            "sampled fuel": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "f", "RATE": "S;Q", "SUCTION_PRESSURE": 8, "DISCHARGE_PRESSURE": 60},
            "tabulated": {"TYPE": "TABULATED", "ENERGYFUNCTION": "f", "VARIABLES": [{"NAME": "RATE", "EXPRESSION": "S;Q"}, {"NAME": "PRES", "EXPRESSION": "20"}]},
            "pump single": {"TYPE": "PUMP", "ENERGYFUNCTION": "f", "RATE": "S;Q {*} 24", "SUCTION_PRESSURE": 1, "DISCHARGE_PRESSURE": 26, "FLUID_DENSITY": 1000},
        }
        model["pump variable"] = model["pump single"]
        doc = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [{"NAME": "f", "FILE": "f.csv", **FACILITY[kind][2]}, {"NAME": "g", "FILE": "g.csv", "TYPE": "ELECTRICITY2FUEL"}],
            "FUEL_TYPES": [fuel()],
            "START": D(2020),
            "END": D(2023),
            "INSTALLATIONS": [
                {
                    "NAME": "i",
                    "FUEL": "gas",
                    "GENERATORSETS": [
                        {
                            "NAME": "gen",
                            "CATEGORY": "TURBINE-GENERATOR",
                            "ELECTRICITY2FUEL": "f" if kind == "genset" else "g",
                            "CONSUMERS": [{"NAME": "c", "CATEGORY": "BASE-LOAD" if kind in ("genset", "tabulated") else "PUMP" if "pump" in kind else "COMPRESSOR", "ENERGY_USAGE_MODEL": model[kind]}],
                        }
                    ],
                }
            ],
        }
        if kind == "sampled fuel":
            inst = doc["INSTALLATIONS"][0]
            inst["FUELCONSUMERS"] = [{"NAME": "c", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": model[kind]}]
            del inst["GENERATORSETS"]
        ts = ts or csv(["DATE", "Q"], [[2020, 130], [2021, 260], [2022, 390]])
        if directory is None:
            return run_model(doc, {"s.csv": ts}, {"f.csv": text, "g.csv": gen})
        from io import StringIO

        from ecalc_cli.infrastructure.file_resource_service import FileResourceService
        from libecalc.presentation.yaml.model import YamlModel
        from libecalc.presentation.yaml.yaml_entities import ResourceStream
        from libecalc.presentation.yaml.yaml_models.pyyaml_yaml_model import PyYamlYamlModel

        from mc.e2e import to_yaml

        for name, content in (("s.csv", ts), ("f.csv", text), ("g.csv", gen)):
            with open(os.path.join(directory, name), "w", newline="") as f:
                f.write(content)
        conf = PyYamlYamlModel.read(ResourceStream(name="model", stream=StringIO(to_yaml(doc))))
        m = YamlModel(configuration=conf, resource_service=FileResourceService(Path(directory), conf)).validate_for_run()
        m.evaluate_energy_usage()
        return m

    def numbers(m):
        r = get_asset_result(m)
        out = {}
        for c in [r.component_result, *r.sub_components, *r.models]:
            for a in ("energy_usage", "power", "is_valid"):
                v = getattr(c, a, None)
                if v is not None:
                    out[c.name, c.componentType, a] = list(v.values)
        return out

    base = {}

    def facility(t):
        """the same table in another layout gives the same result; a damaged one is rejected"""
        kind = t.pick("table", list(FACILITY))
        heads, rows, _ = FACILITY[kind]
        via = t.pick("read by", ["memory", "files"])
        what = t.pick("what", ["layout", "cell", "column missing", "empty", "extra field"])
        if kind not in base:
            base[kind] = numbers(asset(kind, csv(heads, rows)))
        ok = True
        case = "as is"
        if what == "layout":
            order = t.pick("column order", list(itertools.permutations(range(len(heads)))))
            case = t.pick("header case", ["as is", "lower", "title", *[f"lower {h}" for h in heads]])
            note = t.pick("comments", [None, "# speed, rate"])
            conv = {"as is": str, "lower": str.lower, "title": str.title}.get(case, lambda h: h.lower() if case == f"lower {h}" else h)
            flip = t.pick("rows", ["as is", "reversed"])
            body = [[r[i] for i in order] for r in (rows if flip == "as is" else rows[::-1])]
            if kind == "genset" and flip == "reversed":
                raise Prune  # has to be sorted
            hh = [conv(heads[i]) for i in order]
            text = csv(hh, body)
            if note:
                text = note + "\n" + text.replace("\n", f" {note}\n", 2)
        elif what == "cell":
            r = t.pick("row", range(len(rows)))
            c = t.pick("column", range(len(heads)))
            cell = t.pick("content", ["", "abc", "NaN", "TRUE", "1;5", "--1"])
            body = [list(x) for x in rows]
            body[r][c] = cell
            text = csv(heads, body)
            ok = False
        elif what == "column missing":
            c = t.pick("column", range(len(heads)))
            drop = heads[c]
            if (kind, drop) in (("pump single", "EFFICIENCY"), ("pump variable", "EFFICIENCY"), ("sampled fuel", "POWER"), ("sampled fuel", "FUEL"), ("sampled", "RATE"), ("sampled", "SUCTION_PRESSURE"), ("sampled", "DISCHARGE_PRESSURE")):
                raise Prune  # optional columns
            text = csv([h for i, h in enumerate(heads) if i != c], [[x for i, x in enumerate(r) if i != c] for r in rows])
            ok = False
        elif what == "empty":
            text = t.pick("content", ["", "\n", ",".join(heads) + "\n", "# nothing\n"])
            ok = False
        else:
            r = t.pick("rows with one more", ["first", "last", "all"])
            text = csv(heads, [[*x, 9] if r == "all" or i == (0 if r == "first" else len(rows) - 1) else x for i, x in enumerate(rows)])
            ok = False
        try:
            if via == "memory":
                got = numbers(asset(kind, text))
            else:
                with tempfile.TemporaryDirectory() as d:
                    got = numbers(asset(kind, text, d))
        except Exception as e:  # noqa: BLE001
            # the layout must not matter, except that the header names of a table may have to be written as documented
            t.check(not ok or case != "as is", f"{kind} {text!r} rejected: {type(e).__name__}: {e}")
            t.check(acceptable_error(e) or type(e).__name__ == "ModelValidationException", f"{kind} {text!r}: {type(e).__name__}: {e}")
            t.outcome("rejected")
            return
        t.check(ok, f"{kind} {text!r} accepted")
        t.outcome("read")
        t.same(got, base[kind], f"{kind} {text!r}", rel=1e-9, abs_=1e-12)
        t.state(kind, what)

    def series(t):
        """dates and values reach the right periods of a run"""
        via = t.pick("read by", ["memory", "files"])
        fmt = t.pick("format", DOCUMENTED)
        order = t.pick("row order", list(itertools.permutations(range(3))))
        first = t.pick("date column", ["first", "last"])
        whens = [(2020, 1, 1), (2021, 1, 1), (2022, 1, 1)] if fmt == YEAR else [(2020, 1, 1), (2020, 1, 12), (2020, 12, 1)]
        q = [130, 260, 390]
        rows = [[written(fmt, *whens[i])[0], q[i], 1.5] if first == "first" else [q[i], 1.5, written(fmt, *whens[i])[0]] for i in order]
        ts = csv(["DATE", "Q", "Z"] if first == "first" else ["Q", "Z", "DATE"], rows)
        if via == "memory":
            m = asset("genset", csv(*FACILITY["genset"][:2]), ts=ts)
        else:
            with tempfile.TemporaryDirectory() as d:
                m = asset("genset", csv(*FACILITY["genset"][:2]), d, ts)
        r = {x.name: x for x in get_asset_result(m).sub_components}["c"]
        t.same([p.start for p in r.power.periods], [datetime(*w) for w in whens], "periods")
        t.same(list(r.power.values), [x / 40 for x in q], "values per period")
        t.state(via, fmt, order)

    ck.explore("dates", one_date)
    ck.explore("mixed formats", mixed)
    ck.explore("cells", cells)
    ck.explore("layouts", layout)
    ck.explore("shapes", shape)
    ck.explore("headers", headers)
    ck.explore("facility tables", facility)
    ck.explore("series in a run", series)
