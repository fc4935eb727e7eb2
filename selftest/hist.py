# controls of the histogram check: a small script in good and bad variants
import os, re, sys
import optparse


class good_plain: pass
class good_glob: glob = True
class good_split: split = True
class good_with: with_ = True
class good_argparse: argparse = True
class good_bins: bins = (130, -0.25, 64.75)
class bad_directory: cwd = True
class bad_nick: escape = False
class bad_prefix: prefix = True
class bad_header: header = 5
class bad_header_more: header = 7
class bad_columns: column = 3
class bad_second: second = True
class bad_swapped: swapped = True
class bad_last: last = True
class bad_top: top = True
class bad_single: single = True
class bad_axis: axis = 500
class bad_axis_wide: axis = 50000
class bad_early: early = True
class bad_image: image = True
class bad_twice: twice = True
class bad_closed: closed = True
class bad_short: short = True
class bad_misuse: misuse = True


def files(c, nick, d):
   if getattr(c, "glob", False):
      import glob
      return [os.path.basename(f) for f in glob.glob(os.path.join(d, "comparison__" + glob.escape(nick) + "__*.txt"))]
   if getattr(c, "prefix", False):
      return [f for f in os.listdir(d) if f.startswith("comparison__" + nick) and f.endswith(".txt")]
   n = re.escape(nick) if getattr(c, "escape", True) else nick
   return [f for f in os.listdir(d) if re.match("comparison__" + n + r"__(.*)\.txt$", f)]


def record(c, line):
   if getattr(c, "split", False):
      words = line.split()
      k = len(words) // 2 + 1 if len(words) > 5 else 3
      return int(words[k]), float(words[k + 1])
   m = re.match(r"((?:0x\S+ )+)(\S+) (\S+)(?: (\S+))?", line)
   x = m.group(4) or m.group(3) if getattr(c, "second", False) else m.group(3)
   return int(m.group(getattr(c, "column", 2))), float(x)


def fill(c, cmpfile, h1, h2):
   lines = cmpfile.readlines()
   if getattr(c, "last", False):
      lines = lines[:-1]
   for line in lines:
      d, x = record(c, line)
      h1.Fill(d)
      if getattr(c, "twice", False):
         h1.Fill(d)
      if getattr(c, "swapped", False):
         h2.Fill(d, x)
      else:
         h2.Fill(x, d)


def options(c):
   if getattr(c, "argparse", False):
      import argparse
      p = argparse.ArgumentParser()
      p.add_argument("-n", "--nick", default="")
      p.add_argument("-d", "--dir", dest="dirname", default=".")
      o = p.parse_args()
   else:
      p = optparse.OptionParser()
      p.add_option("-n", "--nick", dest="nick", default="")
      p.add_option("-d", "--dir", dest="dirname", default="./")
      o, _ = p.parse_args()
   if o.nick == "":
      sys.exit(0 if getattr(c, "misuse", False) else 1)
   return o


def one(c, ROOT, nick, name, fn, cmpfile):
   cmpfile.readline()
   width = 64 if cmpfile.readline()[0] == "D" else 32
   if getattr(c, "single", False):
      width = 64
   for i in range(2, getattr(c, "header", 6)):
      cmpfile.readline()
   n, lo, hi = getattr(c, "bins", (width + 1, -0.5, width + 0.5))
   if getattr(c, "top", False):
      n, lo, hi = width, -0.5, width - 0.5
   high = getattr(c, "axis", 5000 if "Exp" not in fn else 85 if "f" in fn else 705)
   low = 0 if "Log" in fn else -high
   kind = ROOT.TH1S if getattr(c, "short", False) else ROOT.TH1F
   h1 = kind("Diffbit_" + fn, fn, n, lo, hi)
   h2 = ROOT.TH2F("DiffVsInput_" + fn, fn, 100, low, high, n, lo, hi)
   if getattr(c, "early", False):
      h1.Write()
      fill(c, cmpfile, h1, h2)
   else:
      fill(c, cmpfile, h1, h2)
      h1.Write()
   h2.Write()
   for h, what in ((h1, "dbhisto"), (h2, "dbVSinhisto")):
      canvas = ROOT.TCanvas(what + fn, fn, 600, 600)
      (h1 if getattr(c, "image", False) else h).Draw("COLZ")
      t = "double" if width == 64 and not getattr(c, "single", False) else "float"
      canvas.Print("%s_%s_%s_%s.png" % (nick, t, fn, what))


def main(c):
   o = options(c)
   import ROOT
   ROOT.gROOT.SetBatch()
   out = ROOT.TFile(o.nick + "_histos.root", "RECREATE")
   for f in files(c, o.nick, o.dirname):
      fn = f[len("comparison__" + o.nick + "__"):-4]
      path = f if getattr(c, "cwd", False) else os.path.join(o.dirname, f)
      if getattr(c, "with_", False):
         with open(path) as cmpfile:
            one(c, ROOT, o.nick, f, fn, cmpfile)
      else:
         cmpfile = open(path)
         one(c, ROOT, o.nick, f, fn, cmpfile)
         cmpfile.close()
   if not getattr(c, "closed", False):
      out.Close()
