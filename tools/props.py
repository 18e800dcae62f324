TESTS = "The repository's tests"
prop("C01", "A convex hull is exactly the hull of its points, in 2 to 5 dimensions",
 "For every set of points that spans the space, the computed convex hull consists of input points, has every extreme input point as a vertex and lists no vertex twice; every facet's plane (unit outward normal and offset) passes through the facet's vertices and has all of the input points on or below it; the facets bound a closed polytope, with neighbors being the facets on the other sides of their ridges.",
 ["inputs"], "every finite set of points in 2, 3, 4 and 5 dimensions that isn't contained in a hyperplane, with duplicates, collinear, coplanar, cospherical and lattice points, of any scale and order, through each constructor",
 "The tests build one 3D hull and check its size; whether a vertex is lost, a neighbor is wrong or an orientation is flipped depends on the degeneracies of the input, and there are infinitely many of those.",
 [HULL, RAW, EXT], [("facet extraction, vertex deduplication and orientation", HULL), ("options handed to qhull", RAW)],
 ["ConvexHull::vertices", "ConvexHull::facets", "Facet::vertices/neighbors/normal/offset"],
 "property-based testing against exact integer geometry", "Random and structured integer point sets; the oracle is exact (big integer determinants and linear programs). In 4D and 5D, ridges of facets with more than d vertices are only checked as far as qhull defines them.")
prop("C02", "3D hull facets are consistently wound and neighbors share their edges",
 "In three dimensions the vertices of every facet are listed counterclockwise when seen from outside, each directed edge occurs in exactly one facet and its reverse in exactly one other facet, and that facet is among the listed neighbors; the volume computed from the wound facets is the exact volume of the hull.",
 ["inputs"], "every spatial set of 3D points, including coplanar quads, lattice points and points with 8 bit colors",
 "No test looks at winding; palette simplification silently picks wrong directions when a single facet is flipped, which depends on vertex order inside qhull.",
 [HULL], [("winding correction and neighbor mapping of 3D facets", HULL)], ["Facet::vertices", "Facet::neighbors"],
 "property-based testing against exact volume and edge parity", "Exact integer volume by an independent hull enumeration.")
prop("C03", "A Delaunay triangulation tiles the hull with empty circumspheres",
 "The simplices of a triangulation are made of input points, don't overlap and together fill exactly the convex hull of the points; no input point lies inside the circumsphere of any simplex, and the plane attached to each simplex evaluates to zero at its lifted vertices and is never positive at other lifted points.",
 ["inputs"], "every point set in 2, 3, 4 and 5 dimensions that isn't contained in a hyperplane, including cospherical and lattice points",
 "The tests check a handful of fixed points, and one of them fails on the original tree; emptiness and coverage quantify over all simplices and points.",
 [DEL, RAW, EXT], [("lifting, upper Delaunay filtering and simplex extraction", DEL)], ["Delaunay::simplices", "Simplex::plane_distance"],
 "property-based testing against exact in-sphere determinants", "Exact determinants; total volume compared with the exact hull.")
prop("C04", "Simplex search finds a containing simplex from any search history",
 "Searching for a point inside of the triangulated region always ends and returns a simplex that contains the point within the tolerance, with barycentric coordinates that add up to one and reproduce the point; a point outside by more than the tolerance is reported as not found. Neither earlier searches nor changed tolerances in between have an influence on whether a search succeeds.",
 ["inputs", "histories"], "every triangulation in 2 to 5 dimensions, every query point (vertices, points on faces, outside points) and every sequence of searches and tolerance changes on one searcher",
 "The walk starts where the previous search ended, so a defect needs a particular sequence of queries; the tests query a few points with a fresh searcher.",
 [DEL], [("directed walk with remembered start, cached LU solves, degenerate simplex handling", DEL)], ["SimplexSearcher::find_simplex", "find_simplex_mut", "set_eps"],
 "stateful property-based testing against an exhaustive exact search", "Random query histories; each answer is checked against all simplices.")
prop("C05", "The raw and the typed geometry interfaces agree",
 "The raw interface (qhull's own lists of vertices, facets and simplices, and its search) describes the same hull or triangulation as the typed one that is made from it, whichever constructor is used: the same vertices, facets, planes and simplices, the same neighbors of each of them, and searches that are right in the same sense. Its own lists are consistent: neighborhood is mutual, the neighbors of a vertex are the facets that it is part of, and distances to planes are those that normal and offset give.",
 ["inputs", "histories"], "every non-degenerate point set in 2 to 5 dimensions, every constructor, every sequence of searches",
 "The tests exercise only the typed interface.",
 [RAW, DEL, HULL], [("two independent readings of qhull's data structures", RAW)], ["RawHull", "RawDelaunay"],
 "differential property-based testing", "Both interfaces are also held against exact oracles.")
prop("C06", "Recoloring with the decomposition palette gives the image back",
 "If all colors of an image are inside the hull of the decomposition palette, then reconstructing with that same palette reproduces every pixel of the image at its place, up to one level of rounding per component.",
 ["inputs"], "every non-degenerate image of any aspect ratio and every accepted palette that encloses its colors, in any order",
 "The library's tests have no image at all; a defect may need particular pixels (boundary points, duplicates, facets coplanar with the star) to show.",
 [LIB, PAL], [("weights times palette coordinates", LIB), ("star triangulation coordinates", PAL)], ["DecomposedImage::reconstruct"],
 "round-trip property-based testing", "Tolerance of one level per component; images up to 90 pixels in the quick tier.")
prop("C07", "Channels are the RGBXY weights times the star coordinates",
 "The weight of a palette color in a pixel is the one that the method defines: the pixel's barycentric coordinates in the Delaunay triangulation of the RGBXY hull's vertices, combined with the coordinates of those vertices' colors (or the closest colors on the palette's hull) in the triangulation of the palette around its darkest color (the one that is closest to black). For a four color palette around the image, it simply is the barycentric coordinate of the pixel's color.",
 ["inputs"], "every non-degenerate image and every palette without coplanar quadruples, enclosing the image or not, as far as the triangulations are unique",
 "There is no test for this; wrong weights still give plausible images.",
 [LIB, PAL, TRI, DEL], [("RGBXY hull, triangulation and search", LIB), ("star triangulation and projection", PAL), ("closest point on a triangle", TRI)], ["DecomposedImage::get_channel_grayscale", "DecomposedImage::reconstruct"],
 "differential property-based testing against a linear programming reference model", "The reference determines the weights by a linear program (no triangulation, no search); ambiguous pixels are skipped and counted.")
prop("C08", "Recoloring is a fixed weighted mean of the new palette, per pixel",
 "Reconstruction with any palette gives each pixel and component the mean of the new palette's values with the pixel's channel weights: it is linear in the palette, treats components alike and independently, reproduces constant palettes (up to one level; a component that is zero in all of the colors stays exactly zero), and changes only the pixels that use a color when that color is changed. A palette of another size is refused.",
 ["inputs", "histories"], "every decomposition and every sequence of recolorings with arbitrary palettes",
 "There is no test that reconstructs anything.",
 [LIB], [("matrix product and clamping", LIB)], ["DecomposedImage::reconstruct", "DecomposedImage::get_channel_grayscale"],
 "metamorphic property-based testing", "Up to one level of rounding per product.")
prop("C09", "A palette is accepted exactly if its colors are distinct and extreme",
 "A decomposition palette is accepted if and only if it has at least four colors, they aren't all in one plane, no color occurs twice and every color is a vertex of the hull of all of them; otherwise an error is returned, without a crash.",
 ["inputs"], "every list of colors, including duplicates, planar lists, and colors on faces, edges or just off a plane",
 "The boundary between redundant and extreme is one level of one component; there is no test for it.",
 [LIB, PAL], [("size, flatness, redundancy and duplicate checks", LIB)], ["DecomposedImage::new"],
 "property-based testing against exact integer geometry", "The verdict is compared with exact extreme point enumeration.")
prop("C10", "Channel images are the weights, in range, one per palette color",
 "There is exactly one channel per palette color, of the size of the image; it equals what recoloring that color alone to full intensity (and the others to black) shows, and the channels of each pixel add up to full intensity up to rounding. Asking for any other channel gives nothing.",
 ["inputs"], "every decomposition, every channel number up to the largest integer",
 "There is no test for channels.",
 [LIB], [("column extraction", LIB)], ["DecomposedImage::get_channel_grayscale", "num_channels"],
 "metamorphic property-based testing", "Up to one level per channel.")
prop("C11", "Computed palettes are valid, of the requested size, and usable",
 "For every image whose colors aren't in one plane, the computed palette has at least four colors and at least the requested minimum (or all of the color hull's vertices, if those are fewer), never more than the color hull; its colors are distinct and extreme, and it is accepted for a decomposition. A color hull that already is as small as the minimum is returned as it is.",
 ["inputs", "configurations"], "every image with spatial colors, every combination of minimum, maximum and error bound, including contradictory and extreme ones",
 "No test computes a palette; clamping and rounding only make colors redundant for particular images.",
 [PAL], [("simplification loop and palette cleanup", PAL)], ["compute_palette"],
 "property-based testing against exact integer geometry", "Exact extreme point enumeration of the returned palette.")
prop("C12", "Palettes reach the maximum size, then stay within the error bound",
 "A palette that was simplified below the maximum size represents the image within the error bound (root mean square distance of the pixels to the hull of the returned palette, up to rounding of the colors), and one above the maximum size doesn't depend on the bound; a hull that isn't larger than the maximum is returned as it is if no simplification meets the bound; a further step that would stay within the bound (and leave at least the minimum size) is taken; and as long as no color had to be clamped, the hull of the palette contains all colors of the image, whatever the bound.",
 ["inputs", "configurations"], "every image with spatial colors, every bound, minimum and maximum",
 "The error is only computed for the last simplification steps and depends on clamping, which no test reaches.",
 [PAL, TRI], [("pixel error and stopping rule", PAL), ("triangle distance", TRI)], ["compute_palette"],
 "property-based testing against an independent exact error measure", "Half a level per component of rounding is allowed for.")
prop("C13", "Results depend only on the arguments",
 "Palettes, weights, channels and recolorings are the same each time they are computed from the same arguments, in whichever order, after whatever other images, and while other threads compute on other images.",
 ["inputs", "histories", "schedules"], "every interleaving of computations with several images in one process, repeated and in parallel",
 "Qhull keeps global state and the library uses randomly seeded hash maps; a single sequential run can't show a dependency on either.",
 [LIB, PAL, RAW, EXT], [("one qhull instance per computation, sorted edges", PAL)], ["compute_palette", "DecomposedImage"],
 "stateful differential testing with threads", "Thread schedules are sampled, not enumerated.")
prop("C14", "The C interface computes exactly what the Rust library does",
 "Called through its header from C, each function returns the same palette, decomposition sizes, recolored bytes and channel bytes as the Rust library does for the same image and parameters; where the library refuses or can't handle something, it reports failure (null pointer, size 0 or return value 0) instead of a result.",
 ["inputs", "configurations"], "every image, palette, parameter combination and channel number that the C types can express",
 "There are no tests of the C interface, and the compiler doesn't compare the header with the implementation.",
 [C, H], [("marshalling and failure values", C), ("declarations", H)], ["create_image_weights", "compute_palette", "create_decomposed_image", "reconstruct_image", "grayscale_image_channel"],
 "differential property-based testing through a C program", "A shim compiled against the header of the tree (once as C, once as C++) calls the built library.")
prop("C15", "The C interface owns and frees memory as documented",
 "For every legal sequence of creating, using and freeing weights, palettes and decompositions, handles stay usable until they are freed (independently of each other), no call reads or writes outside of the buffers it was given or modifies its inputs, failing calls write nothing they shouldn't, and nothing stays allocated after everything was freed.",
 ["histories", "inputs"], "every legal sequence of calls with several live objects, in any order of release, including failing calls",
 "There are no tests of the C interface; memory errors need particular sizes and orders.",
 [C, H], [("ownership transfer by boxed pointers", C)], ["free_image_weights", "free_computed_palette", "free_decomposed_image"],
 "stateful property-based testing with guard pages and heap accounting", "Buffers end at inaccessible pages; a debugging heap checks each block and counts exactly.")
prop("C16", "The command line tool does what the library does, file to file",
 "The palette command prints the palette that the library computes for the decoded image, as comma separated lowercase hex; the recoloring command writes the library's recoloring to the output file and, when asked to, each channel to a file named after its index and color. Both fail with a non-zero status, and without an output image, when the library can't handle the input.",
 ["inputs", "configurations"], "every image file (RGB, RGBA, gray, 16 bit), every combination of options, defaults included",
 "There are no tests of the tool.",
 [CLI], [("option defaults, decoding, naming of the files", CLI)], ["generate-palette", "recolor-image"],
 "differential property-based testing of the built program", "Images are PNG, BMP, PPM and TGA files in a scratch directory.")
prop("C17", "The command line tool rejects every malformed argument",
 "A color list is accepted exactly if each comma separated item is six hexadecimal digits, and then means those colors in that order; a minimum size is accepted from 4 to 255, a maximum size from 0 to 255. Lists of different lengths, and anything else malformed, end with a non-zero status and write no file.",
 ["inputs"], "every argument string, including signs, spaces, prefixes, multi-byte characters and empty items",
 "There are no tests of the tool; the accepted language of the underlying number parser is larger than it looks.",
 [CLI], [("color list parser and value ranges", CLI)], ["recolor-image", "generate-palette"],
 "grammar-based property testing of the built program", "Accepted arguments are also checked by their effect.")
prop("C18", "Degenerate images fail cleanly, all others work",
 "For every image and every parameter value (however extreme) each library call ends, either with a valid result or, only if the colors lie in one plane (for palettes) or the pixels in one hyperplane (for weights), with an ordinary panic that can be caught; the process is never aborted or corrupted, and other images can be handled afterwards.",
 ["inputs", "histories", "configurations"], "every image from 1x1 on, including single-color, gray, linear and tiny-contrast ones, every parameter including infinities and NaN",
 "Crashes of the C code take the test process down and no test feeds it degenerate input.",
 [LIB, PAL, RAW, EXT], [("error handling around qhull", RAW)], ["compute_palette", "ImageWeights::new", "DecomposedImage::new"],
 "property-based robustness testing in worker processes", "Whether an image is degenerate is decided exactly.")
prop("C19", "The web worker marshals images and palettes faithfully",
 "Every request to the web worker hands exactly the image's RGB bytes and the palette to the library and turns exactly the library's bytes into the response (with full opacity), returns the pixel buffer to the page, and releases every buffer it allocated, whether the library call succeeds, reports failure or traps. A library failure is reported as an error, and so is a palette whose number of colors isn't that of the decomposition.",
 ["inputs", "histories", "fault_sequences"], "every sequence of requests with every image size and palette, with failures at any call, with the memory growing during any call, and with buffers anywhere in the 4 GiB that the library can address",
 "There are no tests of the web code.",
 [WW], [("request handler", WW)], ["ThreadWorker responses"],
 "model-based property testing with fault injection in node", "The compiled library is replaced by a recording stand-in.")
prop("C20", "The web page shows and sends consistent colors and handles",
 "Text and color fields of the palette always stay in sync for valid color texts and ignore invalid ones; what is displayed is what is sent for decomposition and recoloring; each weights or decomposition handle is released at most once, never used after that, and none but the current ones remain; the images shown are those computed last, for the image and the colors displayed, object URLs are revoked exactly when they aren't shown any more, and after the last request the controls can be used again. All this whatever the user clicks, in whichever order requests are handled and answered, and however they fail.",
 ["inputs", "histories", "schedules"], "every typed text, every palette and every sequence of clicks, image changes and worker answers",
 "There are no tests of the web code.",
 [IJ], [("event handlers", IJ)], ["requests to the worker", "field values"],
 "stateful property-based testing in node with a stand-in DOM", "The page is a stand-in DOM.")
prop("C21", "Repeated use doesn't leak memory",
 "Computing convex hulls, triangulations, searches, palettes, weights, decompositions, channels and recolorings again and again, successfully or not, leaves the same amount of memory in use as before.",
 ["inputs", "histories"], "every image, point set and parameter combination, successful and failing calls",
 "No test measures memory; the C library allocates behind the scenes.",
 [RAW, DEL, HULL, LIB, EXT], [("ownership of qhull's memory", RAW)], ["heap usage of the process"],
 "property-based testing with heap accounting", "A debugging heap counts exactly; nothing may remain.")
prop("C22", "Any view of pixels behaves like a copy of them",
 "Palettes, weights and recolorings of an image depend only on its size and pixels, not on how the image is stored: sub-images, views and computed images give the same results as a plain copy.",
 ["inputs"], "every view of every image",
 "There are no such tests.",
 [LIB, PAL], [("generic image access", LIB)], ["compute_palette", "ImageWeights::new"],
 "differential property-based testing", "Three image types are compared with a plain copy: a sub-image, a nested view and an image that computes its pixels.")
prop("C23", "Palette simplification collapses the edges that add the least volume",
 "The computed palette is the result of repeatedly collapsing the hull edge whose replacement vertex (which encloses the old hull with the least total plane distance) adds the least volume, until the minimum size is reached, no edge can be collapsed, the next step would leave fewer distinct extreme colors than the minimum or, at or below the maximum size, would exceed the error bound (the root mean square distance of the image's pixels to the hull of the clamped vertices).",
 ["inputs", "configurations"], "every image in general position with every minimum, maximum and bound, as far as no decision is a tie",
 "No test computes a palette; a wrong choice still gives a plausible palette.",
 [PAL], [("edge selection, linear program and stopping rule", PAL)], ["compute_palette"],
 "differential property-based testing against a reference model", "Ties and near ties are skipped and counted.")
