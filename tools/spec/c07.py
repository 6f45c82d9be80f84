PROPERTY = {
 "id": "C07", "title": "Map coordinates and grid cells correspond one to one",
 "statement": "Coordinates (x, y, z) with 1 <= x <= dx, 1 <= y <= dy, 1 <= z <= dz name the map's cells one to one: x counts from the left, y from the bottom and z from the first level, however the map is looked at (the whole map, one level, or iterating a level from its top left row by row). Any other coordinate names no cell. Adding a direction moves one step that way.",
 "quantifier": {"over": ["inputs"], "text": "all map sizes, cells and coordinates"},
 "why_tests_cant": "An off-by-one or flipped axis shows only on non-square or multi-level maps or at their edges.",
 "anchors": {"files": ["crates/dmm-tools/src/dmm.rs", "crates/dreammaker/src/dmi.rs"],
  "state": [{"name": "Map.grid", "meaning": "keys in Z/Y/X order, top row first", "where": "crates/dmm-tools/src/dmm.rs"}],
  "mechanism": [{"name": "Coord2/Coord3::{to_raw,from_raw,z,xy}, Coord2 + Dir, Map/ZLevel Index, ZLevel::iter_top_down, Map::{iter_levels,z_level}", "where": "crates/dmm-tools/src/dmm.rs"}, {"name": "Dir::offset", "where": "crates/dreammaker/src/dmi.rs"}],
  "observe_at": ["Map[Coord3]", "ZLevel[Coord2]", "ZLevel::iter_top_down", "Map::iter_levels"], "hook_needed": None},
}
CHECK = {
 "feature": "dmm", "units": ["dmm_key"], "secs": 8,
 "technique": "deductive verification (Verus) of the extracted coordinate functions",
 "level": "proof",
 "level_note": "The coordinate conversions are proved inverse bijections onto the cells, for every size up to i32::MAX; the ndarray container and iterator adaptors on top of them are searched on grids up to 6x6x4.",
 "explanation": "to_raw, from_raw, xy, z and + Dir are extracted and proved against the grid geometry, including that a coordinate outside is refused.",
 "assumptions": ["ndarray indexes in row-major order", "assert! ends the run", "dimensions are below i32::MAX"],
}
