"""Source of known_findings.json."""
import json
from pathlib import Path
FIXED = [
 ("C01", "95d950b", "a crash, full disk or I/O error while saving left the manifest truncated or empty"),
 ("C05", "eddb980", "valid SSH signatures by keys whose principal is not literally the key comment were reported invalid; gpg options after the file names were ignored so the key ring was never used"),
 ("C05", "bdb52c0", "adding a signature reused the earlier signature's file name and destroyed it; a failed or interrupted signing left truncated signatures and temporary files"),
 ("C02", "19c4887", "validate_package raised on malformed manifests (non-mapping sections, unreadable files) and compared hashes of other algorithms as sha256"),
 ("C04", "05fb721", "add_geometry_file wrote outside the package through '..', absolute paths and symlinks, and left half-copied files"),
 ("C06", "fc0cb42", "calculix analysis read the previous run's .dat when the solver wrote none and reported passed"),
 ("C06", "713d686", "analysis reported passed when a criterion's metric was missing, its comparison unknown or the value NaN"),
 ("C06", "3a1e0c9", "re-running an analysis merged old metrics into the new entry; plan ids with path separators wrote outside the results folder; summary.json could be torn"),
 ("C04", "8faad5a", "a read error while hashing an import left the new file in place of the old one without an entry"),
 ("C04", "e455531", "importing to an un-normalised destination recorded a second entry for the same file"),
 ("C06", "ee1f76b", "an I/O error while the native backend wrote its summary left a truncated summary file"),
 ("C04", "78fdc5e", "an I/O error while reading a symbolic link in the destination let an import write outside the package"),
 ("C11", "f5e9b7c", "evaluation time limits were checked only after the evaluation had finished: a stuck evaluation was never answered"),
 ("C10", "90f10ce", "a JSON frame that is not an object, a binary frame or a very large number ended the WebSocket connection; replies could hold NaN or fail to encode and be lost; an abandoned evaluation kept running"),
 ("C11", "8f69933", "NaN, infinities and lone surrogates in requests or results gave 500 errors; ui_eval returned the internal wrapper instead of values"),
 ("C08", "80168a1", "vertices were welded through one module-level table, so concurrent sphere, revolution and similar builds raised KeyError or lost welds"),
 ("C09", "78b58e3", "catalogue lookups returned the cached dictionaries themselves, so changing one changed every later lookup"),
 ("C09", "b048533", "discs, cones and undivided spheres contained the library's own default centre and face table, so moving one moved later ones"),
 ("C15", "f8fd431", "world transforms were stale after a joint, axis, base transform or frame was changed directly or a caller modified a result; imported chains came in an order that depended on the hash seed; a failed export left a truncated file"),
 ("C15", "2f251c4", "frames bound to a datum always gave the identity transform"),
 ("C14", "7b8e6b9", "a source that could not be found or read was remembered as empty for good; register_datum hid the source's file; a part name in a file replaced an explicit registration; malformed JSON escaped as other exceptions"),
 ("C16", "140fdf0", "computing a face-to-face mate raised AttributeError; a computed mate ignored later changes of its parent's pose"),
 ("C16", "ae6bbac", "a mate solved before was answered from the cache after the mate, its datums or the parent pose had changed"),
 ("C16", "78eb949", "the mate solver took directions up to 0.8 degrees apart as aligned"),
 ("C14", "2636f72", "register_part raised AttributeError for every part definition"),
 ("C13", "60ab752", "malformed catalogues raised YAML or attribute errors instead of the documented ValueError; an explicit relative path kept answering from the file it named before a change of directory"),
 ("C12", "389fe2b", "surfaces of 2D figures and bounding boxes of solids were those before the last change; a Boolean asked for its length, box, centre, surface or a sample before its geometry stayed empty for good; a failed or interrupted update left partial answers; a refused Boolean change was applied to some operands; polygons and trees kept or modified the caller's lists; asking an empty tree raised AttributeError"),
 ("C07", "3113478", "read_stl returned the leading triangles of a truncated file as if they were the whole model"),
 ("C07", "8aacd4a", "STL, STEP, DXF and sidecar exports truncated the existing file first, so an error, kill or power loss left a partial file in place of a good one; sidecars were never written (import of a function that does not exist, swallowed), and ones with tuples could not be loaded; sidecar failures were swallowed; OUT.DXF was written as OUT.dxf"),
 ("C03", "54b9b75", "a package of solids together with sketches or free surfaces loaded back without the sketches and surfaces, one of sketches and surfaces without the surfaces, and a surface copied from another (same identity) was dropped when packaged"),
 ("C11", "b8f17e5", "the message of a failed requirement was reported as an internal syntax-tree dump, and run-time errors other than RuntimeError escaped the interpreter"),
 ("C17", "299f615", "the DSL command line exited 0 when the requested output was refused or failed (unknown format, 2D result to STEP/STL, value to DXF, unreadable source gave a traceback)"),
 ("C17", "7eaa5bf", "ycpkg_export wrote some targets before refusing others, and dropped ellipses and other sketch elements from the DXF while exiting 0"),
 ("C17", "ca38ffe", "a parameter of the wrong type (text for a number) reached the geometry and was packaged; misspelled parameters were ignored, and a numeric-looking text for a string parameter became a number"),
 ('C18', '365308f', 'moving a rotated part moved it along its own turned axes, so that /move and /moveto left it somewhere else than asked for'),
 ('C18', '84542c4', 'a malformed positions file or part list emptied the scene before it was refused; a part loaded twice under one name was drawn twice; a file that is no mesh counted as loaded; reload with a missing or malformed positions file answered success, and left parts loaded without a position where they were'),
 ('C18', '06d0e6a', "parts loaded while x-ray was on with another opacity, or with a default opacity set, were drawn at the wrong opacity; /xray answered the configured instead of the current opacity; ViewerConfig.from_dict emptied the caller's dictionary"),
 ('C18', '765490f', 'a screenshot that could not be written was answered as saved and left a torn file; command-file lines written in the same mtime tick were lost and, after a failing write, run again; unknown ones were dropped silently'),
 ('C18', 'd6335f7', 'overlapping requests interleaved inside the viewer (dictionary changed during iteration, a load cleared by another), and malformed requests ended in unhandled errors'),
 ('C18', 'e7678a9', 'unknown or malformed socket commands got no answer; GET /screenshot left a temporary file for each request'),
 ('C19', '44083b0', "absolute paths to a sibling whose name begins with the root's, links and .git were written and read; a failing write truncated the file; newlines were changed on reading; everything staged was committed with the saved file, also files matching its name as a pattern; a refused commit was answered with success; sha was missing for first commits"),
 ("C05", "c90e863", "verification read the manifest twice (hash of one version, signatures of another), stopped with an error on a signature file that is a directory or not text, and left temporary files behind when one could not be written"),
 ("C01", "81d8366", "after a reported save, export or chain export the file could be back at its old version after a power loss (the rename was never flushed)"),
 ("C06", "ea4a295", "the FEniCS backend counted a criterion with an unknown comparison, or a NaN measurement, as passed"),
 ("C05", "d5212d6", "a manifest key 304 could be exchanged for \"304\" (and true for \"true\") under a valid signature; signing a manifest with a date, binary data, a set or mixed keys stopped with a TypeError"),
 ("C07", "6f78e2b", "DXF export (and sampling) of a NURBS curve with interior knots ended at a point that is not on the curve"),
 ("C07", "8eb3ce9", "an ASCII STL with a line end in its name held lines that are no STL"),
 ("C07", "4a2e61c", "round-off between the faces of a closed solid made its STEP export an open surface model"),
 ("C07", "af5494e", "STEP export with a quote, backslash or non-ASCII character in the name wrote an unreadable file"),
 ("C20", "d1b94c4", "a datum transformed by a numpy transform stayed where it was, so world datums and constraint verdicts ignored every part's transform"),
 ("C20", "2175250", "validate_and_raise and report raised AttributeError when a constraint failed"),
 ("C20", "dec5ee4", "get_degrees_of_freedom raised AttributeError as soon as a mate was present"),
 ("C20", "3119c87", "importing a kinematic chain's own export was refused, and a malformed file left some parts moved"),
 ("C20", "e3b0850", "exported parts carried the definition's name, so interfaces and load cases named parts that were not in the export"),
 ("C20", "2948c96", "an assembly intent listed parameters and issues in an order that depended on the hash seed"),
 ("C21", "452aa74", "a detector constructed with an empty registry used another one, so interfaces registered later were ignored"),
 ("C21", "c524751", "a mesh collision check sampled other points each time and gave differing verdicts"),
 ("C21", "8fab8e6", "the penetration depth was the shallowest sampled point's"),
 ("C21", "4284e58", "compatible interface names came in an order that depended on the hash seed"),
 ("C21", "4da414a", "register_many kept the interfaces before the one it refused"),
 ("C21", "a855e9c", "mesh collision of kinematic constraints reported no collision for concentric cubes and, on large meshes, counted a random subset of the faces"),
 ("C21", "e269b93", "a mesh collision result's dictionary could not be written as JSON"),
 ("C21", "75229a6", "collision checks left a scene's geometry where it was modelled instead of where the scene places it"),
 ("C21", "7a8f2e5", "validation raised when a MIN_DISTANCE to a reference point had bounds"),
 ("C21", "b0555ce", "MIN_DISTANCE called boxes far apart along one axis too close because of a small gap along another"),
 ("C22", "ecb745d", "no operation between yapCAD solids was ever carried out: the resolver asked geom3d for boolean3d, which does not exist"),
 ("C22", "af30657", "a staged resolution lost each part's warnings, errors and retained cutters"),
 ("C22", "b217c0a", "YAPCAD_ASSEMBLY_RESOLVER never found a registered resolver whose name has capital letters"),
 ("C23", "d71fd6a", 'a graph read back lost its adjacency, edge senses and tolerances, and shells their type'),
 ("C23", "35ea15e", 'surfaces lost their orientation (reference directions) through transforms and serialization'),
 ("C23", "c35c462", 'scaling left edge radii and the extents of planes, cylinders and cones unscaled'),
 ("C23", "bc57dd9", 'a shell or solid refused by add_shell or add_solid stayed in the graph'),
 ("C23", "0c86e47", "a face added after its shell was missing from the shell's octree"),
 ("C23", "c30bb99", 'rotating about an axis that is not a unit vector raised AttributeError'),
 ("C23", "43c92c7", 'transforms left B-spline and circle edges behind, moved a shared surface twice, and one that failed left the graph half moved'),
 ("C23", "3a4a95d", "a solid's native BREP shared tags and lists with the graph it was made from and with graphs read from it"),
 ("C23", "5c8b19b", 'an unevenly scaled solid kept the unscaled native BREP'),
 ("C23", "07ecc6e", 'scaling about a centre moved the mesh away from it, and from the native BREP'),
 ("C23", "c28f9b5", 'validating a solid with a spherical shell failed on the triangles without area at its poles'),
 ("C23", "5df14b6", 'shells that do not touch were reported as intersecting, and their solid refused, wherever the planes of two triangles met'),
]
OPEN = []


def main():
    out = [dict(property=p, status="fixed", sig="", what=w, text=f"fixed: property={p} {c} {w}") for p, c, w in FIXED]
    out += OPEN
    (Path(__file__).resolve().parent.parent / "known_findings.json").write_text(json.dumps({"findings": out}, indent=1) + "\n")


main()
