"""pack.py MERGED ZIP KIND...: puts the minimised corpora of the kinds in the archive, the others stay."""
import os, sys, zipfile
src, out, kinds = sys.argv[1], sys.argv[2], set(sys.argv[3:])
files = {}
if os.path.exists(out):
    with zipfile.ZipFile(out) as z:
        files = {n: z.read(n) for n in z.namelist() if n.split("/")[0] not in kinds}
for k in kinds:
    for d in sorted(open(os.path.join(src, k, f), "rb").read()[1:] for f in os.listdir(os.path.join(src, k))):
        files["%s/%04d" % (k, sum(1 for n in files if n.startswith(k + "/")))] = d
with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED, compresslevel=9) as z:
    for n in sorted(files):
        i = zipfile.ZipInfo(n, (1980, 1, 1, 0, 0, 0))
        i.compress_type = zipfile.ZIP_DEFLATED
        z.writestr(i, files[n])
