PROPERTY = {
 "id": "C05", "title": "Icon sheet layout: every state, facing and frame names its own cell",
 "statement": "Reading an icon's metadata keeps all states in order; each state's first sprite comes right after the sprites (facings times frames) of the states before it, the n-th state of a name is found under (name, n), and every (state, facing slot, frame) maps to its own sprite and its own row-major cell of the sheet, facings ordered S N E W SE SW NE NW (missing ones show South). Rendering a state copies exactly those cells.",
 "quantifier": {"over": ["inputs"], "text": "all well-formed metadata texts, sheet widths, states, facings and frames"},
 "why_tests_cant": "An offset or index error only shows for later states, other facings or duplicated names; the tests read two tiny descriptions.",
 "anchors": {"files": ["crates/dreammaker/src/dmi.rs", "crates/dmm-tools/src/dmi.rs", "crates/dmm-tools/src/dmi/render.rs"],
  "state": [{"name": "State.offset / duplicate_index", "meaning": "sprites and same-named states before this one", "where": "crates/dreammaker/src/dmi.rs"}, {"name": "Metadata.state_names", "meaning": "lookup from (name, number)", "where": "crates/dreammaker/src/dmi.rs"}],
  "mechanism": [{"name": "parse_metadata, State::{index_of_dir,index_of_frame,num_sprites}, Metadata::{rect_of,get_icon_state}", "where": "crates/dreammaker/src/dmi.rs"}, {"name": "IconFile::{rect_of,rect_of_index}", "where": "crates/dmm-tools/src/dmi.rs"}, {"name": "IconRenderer::{ordered_dirs,render_dirs,render_frames}", "where": "crates/dmm-tools/src/dmi/render.rs"}],
  "observe_at": ["Metadata::meta_from_str", "Metadata::rect_of", "IconFile::rect_of_index", "IconRenderer::render_to_images"], "hook_needed": None},
}
CHECK = {
 "feature": "dmi_layout", "units": ["dmi_layout"], "secs": 10,
 "technique": "deductive verification (Verus) of the extracted metadata reader and index arithmetic",
 "level": "proof",
 "level_note": "For every sequence of lines, whatever their text, a metadata value that is returned has correct offsets, duplicate numbers and lookup table; index and rectangle functions are proved against the cell geometry and the cells proved disjoint. How a line's text turns into numbers, and the pixel copying of IconRenderer, are searched only.",
 "explanation": "parse_metadata is extracted with its string primitives (lines, split_once, parse, unquoting) replaced by unconstrained externals, so the layout invariant is proved for arbitrary line contents; a panic on malformed text ends the run.",
 "assumptions": ["a sheet has fewer than usize::MAX sprites and u32::MAX states (assume in the extraction)", "BTreeMap/HashMap entry, get, insert behave as maps", "string primitives (lines, trim, split_once, parse, unquoting) are unconstrained in the proof", "malformed metadata may panic"],
}
