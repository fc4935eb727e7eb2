# Controls of the analysis of the table script: the same tables in several ways, and with one mistake each.
import math
import sys
from collections import namedtuple


class good_plain:
   pass


class good_generator:
   generator = True


class good_named:
   named = True


class good_fstring:
   fstring = True


class good_argv:
   argv = True


class bad_offset_of_first:
   first_offset = True


class bad_linear_errors:
   linear = True


class bad_columns:
   columns = (1, 4, 2)


class bad_identity_kept:
   keep = True


class bad_inverse_speedup:
   inverse = True


class bad_zero:
   zero = True


class bad_scalar_error:
   scalar_error = True


class bad_vector_name:
   suffix = True


class bad_partner:
   partner = True


class bad_order:
   reorder = True


class bad_digits:
   digits = 1


class bad_titles:
   titles = True


class bad_normalise:
   always = True


class bad_run_together:
   sep = ""


class bad_cut:
   width = 7


Timing = namedtuple("Timing", "name time err")


def lines(filename):
   with open(filename) as f:
      for line in f:
         yield line


def extract(c, filename):
   a, b, d = getattr(c, "columns", (1, 3, 5))
   if getattr(c, "generator", False):
      return [[w[a], float(w[b]), float(w[d])] for w in (l.split() for l in lines(filename))]
   out = []
   for line in open(filename).readlines():
      w = line.strip().split()
      t = Timing(w[a], float(w[b]), float(w[d])) if getattr(c, "named", False) else [w[a], float(w[b]), float(w[d])]
      out.append(t)
   return out


def normalise(c, timings):
   out, base = [], None
   for name, time, err in timings:
      if name.startswith("Identity"):
         if base is None or not getattr(c, "first_offset", False):
            base = (time, err)
         if not getattr(c, "keep", False):
            continue
      e = err + base[1] if getattr(c, "linear", False) else math.hypot(err, base[1])
      out.append([name, time - base[0], e])
   return out


def ratio(c, a, b):
   if getattr(c, "inverse", False):
      return b / a if a != 0 else 0.
   if getattr(c, "zero", False):
      return a / b
   return a / b if b != 0 else a


def cell(c, time, err, speed=None):
   d = getattr(c, "digits", 2)
   if getattr(c, "fstring", False):
      t = f"{time:.2f} +- {err:.{d}f}"
      return t if speed is None else t + " {0:.1f}X".format(speed)
   sep = getattr(c, "sep", " ")
   t = "%.*f +- %.2f" % (d, time, err)
   if hasattr(c, "width"):
      t = t[:c.width]
   return t if speed is None else "%s%s%.1fX" % (t, sep, speed)


def row(c, name, cells):
   print("%16s" % name, " ".join("%20s" % x for x in cells))


def summary(c, reports):
   print("Function", *[t for t, _ in (reports[::-1] if getattr(c, "titles", False) else reports)])
   for i, (name, norm, _) in enumerate(reports[0][1]):
      out = []
      for j, (_, timings) in enumerate(reports):
         _, time, err = timings[i]
         out.append(cell(c, time, err, ratio(c, norm, time) if j else None))
      row(c, name, out)


def vector(c, reports):
   print("Function", reports[0][0], *[t + " vect." for t, _ in reports])
   first = {n: (t, e) for n, t, e in reports[0][1]}
   names = [n for n in first if n + "v" in first]
   if getattr(c, "suffix", False):
      names = [n for n in first if not n.endswith("v")]
   if getattr(c, "reorder", False):
      names = sorted(names)
   for name in names:
      time, err = first[name]
      out = [cell(c, time, err)]
      for _, timings in reports:
         d = {n: (t, e) for n, t, e in timings}
         vtime, verr = d[name + "v"]
         if getattr(c, "scalar_error", False):
            verr = d[name][1]
         out.append(cell(c, vtime, verr, ratio(c, time, vtime)))
      row(c, name, out)


def libm(c, report):
   title, timings = report
   print("----- %s -----" % title)
   d = {n: (t, e) for n, t, e in timings}
   for name, time, err in timings:
      if name[:5] == "Fast_" or name[-1] == "v":
         continue
      fast = "Fast_" + name
      if not getattr(c, "partner", False):
         fast = fast.replace("Inverse", "Inv")
      if fast in d:
         t, e = d[fast]
         row(c, name, [cell(c, time, err), cell(c, t, e, ratio(c, time, t))])


def options(c):
   if getattr(c, "argv", False):
      flags = [a for a in sys.argv[1:] if a.startswith("-")]
      return "-s" in flags, "-v" in flags, "-l" in flags, "--no-normalise" in flags, [a for a in sys.argv[1:] if a not in flags]
   import argparse
   p = argparse.ArgumentParser(description="tables")
   p.add_argument("files", nargs="+")
   for o in "svl":
      p.add_argument("-" + o, action="store_true")
   p.add_argument("--no-normalise", dest="plain", action="store_true")
   a = p.parse_args()
   return a.s, a.v, a.l, a.plain, a.files


def main(c):
   s, v, l, plain, files = options(c)
   reports = []
   for f in files:
      timings = extract(c, f)
      if not plain or getattr(c, "always", False):
         timings = normalise(c, timings)
      reports.append((f.split("__")[0], timings))
   if s:
      summary(c, reports)
   if v:
      vector(c, reports)
   if l:
      for r in reports:
         libm(c, r)
