PROPERTY = {
 "id": "C12", "title": "A rendered map shows every object, in order, in its place",
 "statement": "The picture of a part of a map is what one gets by painting, onto a transparent picture of 32x32 pixels per tile, every object's icon (chosen by icon, icon_state and dir; variables come from the map, then the type, then its ancestors) with its bottom-left corner at its tile's plus pixel_x/y/w/z and step_x/y, in ascending plane, then layer, then map order. Exactly the pixels inside the picture are painted, whatever the offsets. Painting multiplies the icon by color and alpha and then blends: opaque replaces, transparent leaves, otherwise the result lies between the two colours. Smaller layers never come above larger ones, also for negative and fractional layers.",
 "quantifier": {"over": ["inputs"], "text": "all maps, icons, offsets, layers, planes, colours and alpha values, and every part of the map"},
 "why_tests_cant": "The arithmetic depends on all combinations of two colours and two coverages, on signs, edges and overflow of offsets, and on float layers; the repository has no test of pictures.",
 "anchors": {"files": ["crates/dmm-tools/src/minimap.rs", "crates/dmm-tools/src/dmi.rs"],
  "state": [{"name": "Image.data", "meaning": "the picture, row by row from the top", "where": "crates/dmm-tools/src/dmi.rs"}, {"name": "Sprite, Layer", "meaning": "what is painted, where, and the order", "where": "crates/dmm-tools/src/minimap.rs"}],
  "mechanism": [{"name": "Image::composite, mul255", "where": "crates/dmm-tools/src/dmi.rs"}, {"name": "clip, generate, Sprite::from_vars, color_of, Layer::from", "where": "crates/dmm-tools/src/minimap.rs"}],
  "observe_at": ["minimap::generate with no render passes, Image::composite, Layer's ordering"], "hook_needed": None},
}
CHECK = {
 "feature": "minimap", "units": ["minimap"], "kani": ["layer"], "secs": 14,
 "technique": "deductive verification (Verus) of the extracted clip and composite, Kani over all floats for the extracted layer conversions",
 "level": "proof",
 "level_note": "Proved for all pictures, rectangles and colours: clip keeps exactly the visible part and composite changes exactly the pixels of the rectangle to the blend (with no overflow and no index out of range); the blend lies between the colours; for all f32 layers in range the order is kept. Collecting the sprites (generate) and reading their variables are covered by the bounded search, which paints random maps naively and compares pixel by pixel.",
 "explanation": "Functions are extracted on every run; zip of two ranges becomes a counter pair, Array2 the slice of its elements. Layer conversions are loop-free and decided for every float by Kani.",
 "assumptions": ["an Array2 of w*h elements is a slice of that length", "a pixel's four bytes are r, g, b, a in this order", "icon rectangles lie inside their sheet (C05) and pictures have fewer than 2^32 pixels, sizes below 2^31", "layers lie in -32768..32768"],
}
