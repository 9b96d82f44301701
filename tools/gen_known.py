#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (and the recorded ones, KNOWN below)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject (after "fix: ") -> property
FIX = [
 ("accept coordinates in the border", "C07"), ("GetAppPath keeps", "C15"), ("DateTime::ToLocalTime does not use", "C15"),
 ("DateTime::ToLocalTime and ToUTCTime", "C02"), ("DateTime::Forward", "C23"), ("ConvertToTime reports", "C14"),
 ("dates beyond", "C14"), ("never ask OpenMP", "C22"), ("MongoClient::GetCollection", "C02"),
 ("MongoCollection::QueryRecordsCount", "C02"), ("MongoGridFs::GetFileNames returns", "C12"),
 ("MongoGridFs::GetFileNames does not", "C02"), ("MongoGridFs::GetStreamData allocates", "C04"),
 ("MongoGridFs::GetStreamData releases", "C02"), ("MongoGridFs::WriteStreamData checks", "C12"),
 ("MongoGridFs::WriteStreamData reports", "C11"), ("MongoGridFs::RemoveFile", "C11"), ("MongoClient built", "C05"),
 ("MongoClient::Destroy", "C03"), ("GetBoolFromBsonIterator", "C18"), ("GetDatetimeFromBsonIterator", "C18"),
 ("AppendStringOptionsToBson", "C18"), ("MongoCollection and MongoGridFs", "C17"), ("a text field is read", "C26"),
 ("a shallow copy of SubsetPositions", "C03"), ("ReadRasterFileByGdal releases", "C02"),
 ("ReadRasterFileByGdal reports a dataset", "C12"), ("ReadRasterFileByGdal does not use", "C05"),
 ("ReadRasterFileByGdal reports when", "C12"), ("WriteSingleGeotiff releases", "C02"),
 ("WriteSingleGeotiff checks", "C12"), ("ReadAscFile reads", "C11"), ("Initialize1DArray leaves", "C05"),
 ("Initialize2DArray releases", "C02"), ("Initialize2DArray reports", "C12"), ("the irregular", "C11"),
 ("BatchRelease2DArray", "C16"), ("utils_array.h includes", "C16"), ("Array2D returns", "C05"),
 ("copying an empty Array2D", "C12"), ("the templates that read", "C16"), ("remove the declaration", "C16"),
 ("arrays read from text", "C05"), ("the constructors of clsRasterData", "C05"), ("the multi-file constructor", "C05"),
 ("positions borrowed", "C03"), ("recalculating a subset", "C02"), ("clsRasterData, which owns", "C17"),
 ("reading or copying into", "C02"), ("reading several layers", "C11"), ("GetStatistics of all", "C09"),
 ("GetSrs returns", "C19"), ("masking stores", "C21"), ("GetSrs does not", "C25"), ("Reclassify maps", "C20"),
 ("an incomplete header", "C20"), ("failing to write an ASC", "C11"), ("OutputAscFile writes", "C24"),
 ("ASC files keep", "C24"), ("ASC files hold", "C24"), ("subset data of another", "C11"), ("BuildSubSet reports", "C11"),
 ("outputting subsets", "C11"), ("writing a raster reports", "C11"), ("ReadFromMongoDB releases", "C02"),
 ("ReadGridFsFile checks", "C12"), ("ReadGridFsFile reports", "C11"), ("calculating and masking", "C12"),
 ("GridFS data is", "C04"), ("GridFS metadata", "C18"), ("ReadGridFsFile does not throw", "C20"),
 ("mask_rasterio skips", "C12"), ("mask_rasterio does not", "C14"), ("mask_rasterio rejects an unparsable", "C11"),
 ("parse_fmt_paths", "C16"), ("LoadPlainTextFile", "C27"), ("FindFiles and", "C11"), ("DeleteDirectory reports", "C13"),
 ("DeleteExistedFile", "C13"), ("wtoa and atow", "C14"), ("an empty text", "C26"), ("SplitString does", "C26"),
 ("IsIpAddress rejects", "C26"), ("SplitStringForValues accepts", "C26"), ("mask_rasterio rejects a port", "C26"),
]
KNOWN = []
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
out, used = [], set()
for c, s in log:
    if not s.startswith("fix: "): continue
    m = [(k, p) for k, p in FIX if s[5:].startswith(k)]
    assert len(m) == 1, (s, m)
    k, p = m[0]; used.add(k)
    out.append(dict(property=p, status="fixed", commit=c, text="fixed: property=%s %s %s" % (p, c, s[5:])))
assert used == {k for k, _ in FIX}, {k for k, _ in FIX} - used
json.dump(KNOWN + out, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
print(len(out), "fixed")
