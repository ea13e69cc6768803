import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
cu="src/utils/color_utils.rs";mu="src/utils/math_utils.rs";su="src/utils/string_utils.rs"
p("C01","ARGB channels pack and unpack exactly",
 "For every integer colour, the alpha, red, green and blue accessors return bits 24-31, 16-23, 8-15 and 0-7 of it, and a colour is opaque exactly when its alpha byte is 255. Packing three channel values gives an opaque colour whose channels are the low eight bits of the three values, so packing the channels of any opaque 32-bit colour gives that colour back.",
 ["inputs"],"every 64-bit integer colour and every triple of 64-bit integers",
 "Tests check five literal colours; the law is about every integer, including negative ones and channels above 255.",
 [cu],[("ColorUtils::argb_from_rgb",cu),("alpha/red/green/blue_from_argb, is_opaque",cu)])
p("C02","Every colour-producing operation is total and returns an opaque colour",
 "Converting any XYZ, L*a*b*, linear RGB, L* or hue/chroma/tone triple of finite numbers to a colour returns an integer between 0xff000000 and 0xffffffff and never panics, whatever the magnitude or sign of the arguments. Chroma below 0.0001, tone below 0.0001 or tone above 99.9999 gives a grey, with tones at or below 0 giving black and tones at or above 100 giving white.",
 ["inputs"],"every finite f64 argument (and NaN or infinity without a panic)",
 "Tests use in-gamut values; the solver indexes tables with rounded floats and asserts on hues, and only a proof over all floats excludes an out-of-bounds index.",
 [cu,"src/hct/src/hct_solver.rs","src/hct/hct.rs"],[("ColorUtils::delinearized + clamp_int","src/utils/color_utils.rs"),("HctSolver::solve_to_int, _bisect_to_limit plane indices","src/hct/src/hct_solver.rs")])
p("C03","Angle, sign, clamp and interpolation helpers obey their laws",
 "Sanitizing an angle, integer or floating, gives a value in [0, 360) congruent to it modulo 360 (within rounding), and angles already in range are unchanged. The clamp helpers return the nearest value of the interval, signum returns -1, 0 or 1 by sign, lerp returns its end points at 0 and 1 and (1-t)*start + t*stop between, the difference of two hues in [0,360) is symmetric and the shorter arc between them (0 to 180), and the rotation direction is 1 when the increasing difference is at most 180 and -1 otherwise. Multiplying a row by a 3x3 matrix gives the three dot products.",
 ["inputs"],"every 64-bit integer and every finite f64 argument",
 "Tests sample a dozen angles; range violations hide in tiny negative or huge values that no sample hits (a negative angle of 1e-20 used to give 360).",
 [mu],[("MathUtils::sanitize_degrees_int/double, clamp_int/double, signum, lerp, difference_degrees, rotation_direction, matrix_multiply",mu)])
p("C04","Tone, luminance and channel conversions are accurate and mutually inverse",
 "For L* in [0,100] the luminance Y lies in [0,100], equals the CIE formula within 1e-9, does not decrease as L* grows (beyond rounding), and converting back gives L* within 1e-9; likewise from Y to L*. A channel value 0..255 linearizes into [0,100] monotonically and delinearizes back to itself, the L* of any colour lies in [0,100] and equals that of its relative luminance, grey of tone t has L* within 0.5 of t, and XYZ and L*a*b* values of any opaque colour convert back to that colour.",
 ["inputs"],"every L* and Y in [0,100] and every one of the 16,777,216 opaque colours",
 "Tests check a table of points and ranges with step; monotonicity and inverses are relations over a continuum.",
 [cu],[("y_from_lstar/lstar_from_y, _lab_f/_lab_invf",cu),("linearized/delinearized",cu),("xyz/lab conversions",cu)])
p("C05","Contrast ratio is the WCAG ratio of the tones' luminances",
 "For all tones, the contrast ratio equals (Ylight + 5) / (Ydark + 5) for the luminances of the tones clamped to [0,100], within 1e-9. It is therefore symmetric, lies in [1, 21], is 1 for equal tones, is 21 for 0 against 100, and treats tones below 0 as 0 and above 100 as 100.",
 ["inputs"],"every pair of finite f64 tones",
 "Tests check one clamped pair.",
 ["src/contrast/contrast.rs",cu],[("Contrast::ratio_of_tones, _ratio_of_ys","src/contrast/contrast.rs")])
p("C06","Lighter and darker tones reach the requested contrast or report failure",
 "For a tone in [0,100] and ratio in [1,21], the lighter (darker) search returns either -1 or a tone in [0,100] that is no darker (lighter) than the input and whose contrast with it is at least the ratio; whenever the returned tone is not -1 it overshoots the exact solution by at most 0.41 tone. It returns -1 for tones outside [0,100], and only when the exact solution plus (minus) the 0.4 safety margin falls outside [0,100]. The unsafe forms return the same tone, or 100 (lighter) and 0 (darker) in place of -1.",
 ["inputs"],"every f64 tone, every ratio in [1,21]",
 "Tests check four failing and two succeeding pairs.",
 ["src/contrast/contrast.rs"],[("Contrast::lighter/darker/lighter_unsafe/darker_unsafe","src/contrast/contrast.rs")])
p("C07","Contrast curve interpolates its four knots and saturates outside",
 "For every contrast level the curve returns its low value at or below -1, its high value at or above 1, and the linear interpolation between the knots at -1, 0, 0.5 and 1 otherwise (within 1e-9 relative), so it hits every knot exactly, is continuous, and never leaves the range of the two neighbouring knots by more than rounding.",
 ["inputs"],"every finite contrast level and every four finite knot values",
 "Tests exercise five contrast levels through schemes only.",
 ["src/dynamiccolor/src/contrast_curve.rs",mu],[("ContrastCurve::get, MathUtils::lerp","src/dynamiccolor/src/contrast_curve.rs")])
p("C08","Foreground tone reaches the requested contrast whenever it is attainable",
 "For a background tone in [0,100] and ratio in [1,21], the foreground tone lies in [0,100] and its contrast with the background is at least the ratio whenever black or white reaches it; otherwise it is black or white and its contrast is within 0.1 of the better of the two. Light foregrounds are preferred exactly for backgrounds rounding below 60 (when the light choice reaches the ratio it is taken), dark ones otherwise; a tone allows a light foreground exactly when it rounds to at most 49, and enabling light foregrounds maps tones that prefer but do not allow one to 49 and leaves the others unchanged.",
 ["inputs"],"every background tone and ratio in range",
 "Tests call it with no direct case; only through five contrast levels of four seed colours.",
 ["src/dynamiccolor/dynamic_color.rs","src/contrast/contrast.rs"],[("DynamicColor::foreground_tone, tone_prefers_light_foreground, tone_allows_light_foreground, enable_light_foreground","src/dynamiccolor/dynamic_color.rs")])
p("C09","Resolved role tones honour contrast, tone-delta and awkward-zone guarantees",
 "A dynamic colour without background resolves to its base tone; with a background and no tone-delta pair it keeps its base tone when contrast level is not negative and the base tone reaches the curve's ratio, and otherwise takes the foreground tone for that ratio, with background roles moved out of [50,60). For base and background tones in [0,100] and a delta of at most 40, the two roles of a tone-delta pair resolve to tones in [0,100] that differ by at least the pair's delta (within rounding) in the direction away from the background (up in dark, down in light schemes), and neither lies in [50,60). With a second background, the tone reaches the ratio against both backgrounds if the first choice does, else is the lighter solution when either background prefers light foregrounds and otherwise the only or the darker one.",
 ["inputs","configurations"],"every base tone, background tone, curve, contrast level, delta, polarity, darkness, and every Material role over every scheme",
 "Tests use four seeds, five contrast levels and Material's own roles.",
 ["src/dynamiccolor/dynamic_color.rs"],[("DynamicColor::get_tone","src/dynamiccolor/dynamic_color.rs")])
p("C10","Caches never change an answer",
 "For every sequence of lookups on a tonal palette, the colour returned for a tone (as integer or HCT) is the one a fresh palette with the same hue and chroma, or from the same list, returns, whatever was looked up before. A dynamic colour returns for a scheme the colour of a fresh dynamic colour for that scheme, however many schemes it has resolved before, and a temperature cache and a palette answer repeated queries identically.",
 ["histories"],"every sequence of palette lookups and scheme resolutions",
 "Tests make one or two lookups per object; staleness needs histories (integer lookups used to change later fractional ones).",
 ["src/palettes/tonal_palette.rs","src/dynamiccolor/dynamic_color.rs","src/temperature/temperature_cache.rs"],[("TonalPalette::get / get_hct","src/palettes/tonal_palette.rs"),("DynamicColor::get_hct cache with eviction","src/dynamiccolor/dynamic_color.rs")],
 [("_cache","tone -> argb","src/palettes/tonal_palette.rs"),("_hct_cache","scheme -> Hct","src/dynamiccolor/dynamic_color.rs")])
p("C11","Palette lists are in tone order and round-trip",
 "A tonal palette's list holds the colours of tones 0,10,20,30,40,50,60,70,80,90,95,99,100 in that order; a palette made from any list of 13 colours returns exactly those colours for those tones and the same list, and takes hue and chroma from the highest-chroma entry of tone at most 98. A core palette's list is the concatenation of its primary, secondary, tertiary, neutral and neutral-variant lists, and a core palette made from any 65 colours returns those 65 colours; wrong lengths are rejected.",
 ["inputs"],"every hue and chroma, every list of 13 or 65 colours",
 "Tests round-trip one palette.",
 ["src/palettes/tonal_palette.rs","src/palettes/core_palette.rs"],[("TonalPalette::from_list/get_as_list, CorePalette::from_list/as_list","src/palettes")])
p("C12","Equality and hashing are consistent",
 "HCT colours are equal exactly when their integer colours are, variants exactly when they are the same variant; palettes built from hue and chroma are equal exactly when hue and chroma are, and palettes built from lists exactly when the lists are; schemes are equal exactly when source colour, variant, darkness, contrast level and all palettes are. Equality is reflexive and symmetric, and equal values of the same construction hash equally, so equal values are found in hash maps.",
 ["inputs"],"every pair of HCT colours, palettes of the same construction, schemes",
 "Tests compare two pairs of palettes.",
 ["src/palettes/tonal_palette.rs","src/hct/hct.rs","src/dynamiccolor/dynamic_scheme.rs","src/dynamiccolor/variant.rs"],[("PartialEq/Hash impls","src/palettes/tonal_palette.rs, src/hct/hct.rs, src/dynamiccolor/dynamic_scheme.rs")])
p("C13","An HCT colour's hue, chroma and tone always describe its integer colour",
 "However an HCT value was made (from an integer, from hue, chroma and tone, or by any sequence of setter calls), its hue and chroma are the CAM16 hue and chroma and its tone the L* of its integer colour, with hue in [0,360), chroma finite and non-negative and tone in [0,100]. Setting one coordinate gives the colour solved for the new coordinate and the other two current ones. Solving for the hue, chroma and tone of any opaque colour gives that colour back.",
 ["inputs","histories"],"every opaque colour, every coordinate value, every sequence of setters",
 "The round-trip test samples a lattice of colours; setters are tested on four colours.",
 ["src/hct/hct.rs","src/hct/src/hct_solver.rs","src/hct/cam16.rs"],[("Hct::new/from/from_int/set_hue/set_chroma/set_tone","src/hct/hct.rs")])
p("C14","Scheme variants derive their palettes from the source colour as specified",
 "For every source colour, darkness and contrast level, each of the nine scheme constructors keeps source colour, darkness, contrast level and its own variant, and builds its primary, secondary, tertiary, neutral, neutral-variant and error palettes with the hue offset or rotation and the chroma (constant or function of source chroma) that Material defines for that variant: for instance tonal spot (h,36) (h,16) (h+60,24) (h,6) (h,8), fidelity and content (h,c) (h,max(c-32,c/2)) (complement or last of 3 analogous in 6, disliked fixed) (h,c/8) (h,c/8+4), error (25,84). Palette hues computed by rotation lie in [0,360) and darkness and contrast level never affect palettes.",
 ["inputs","configurations"],"every source colour, both darkness values, every contrast level, all nine variants",
 "Tests compare rendered roles of a few seeds.",
 ["src/scheme/*.rs","src/dynamiccolor/dynamic_scheme.rs"],[("Scheme*::new","src/scheme"),("DynamicScheme::new","src/dynamiccolor/dynamic_scheme.rs")])
p("C15","Hue rotation picks the rotation of the interval containing the hue",
 "Given breakpoints and rotations of equal length, the rotated hue of a colour is its hue plus the rotation of the first interval strictly containing it, reduced to [0,360); with a single rotation that rotation is always applied; when no interval strictly contains the hue it is returned unchanged. Different lengths are rejected.",
 ["inputs"],"every hue, every breakpoint and rotation table of every length",
 "Tests use six tables of one or a few intervals.",
 ["src/dynamiccolor/dynamic_scheme.rs"],[("DynamicScheme::get_rotated_hue","src/dynamiccolor/dynamic_scheme.rs")])
p("C16","Legacy schemes and core palettes assign every role its palette and tone",
 "For every source colour, a core palette has primary (h,max(48,c)), secondary (h,16), tertiary (h+60,24), neutral (h,4), neutral variant (h,8), error (25,84), and its content form (h,c), (h,c/3), (h+60,c/2), (h,min(c/12,4)), (h,min(c/6,8)), error (25,84). Each of the 29 roles of a legacy light or dark scheme is the colour of its designated palette at its designated tone (light primary 40, on primary 100, container 90, on container 10, and so on), for every core palette whatever its caches hold.",
 ["inputs"],"every source colour and core palette, 29 roles, light and dark, plain and content",
 "Tests check a handful of roles for two colours.",
 ["src/scheme/scheme.rs","src/palettes/core_palette.rs"],[("Scheme::light_from_core_palette/dark_from_core_palette","src/scheme/scheme.rs"),("CorePalette::of/content_of","src/palettes/core_palette.rs")])
p("C17","Scheme getters resolve exactly the role they are named after",
 "For every dynamic scheme, each of its named colour getters returns the colour that the Material role of the same name resolves to in that scheme, and resolving a role through the scheme or through the dynamic colour gives the same result: the role's palette at the role's resolved tone. A resolved colour depends only on the scheme.",
 ["inputs","configurations"],"every dynamic scheme and every one of the 54 getters",
 "Tests call few getters.",
 ["src/dynamiccolor/dynamic_scheme.rs","src/dynamiccolor/dynamic_color.rs"],[("DynamicScheme::get_*","src/dynamiccolor/dynamic_scheme.rs"),("DynamicColor::get_argb/get_hct","src/dynamiccolor/dynamic_color.rs")])
p("C18","Material roles carry the specified palette, base tone, backgrounds and curve",
 "Every Material role has its own name, the palette, background flag, background(s), contrast curve and tone-delta pair of the Material specification, and its base tone is the specified function of darkness, contrast level, variant (monochrome, fidelity or content, other), source tone and palette for every scheme. In particular on-roles have their base role (or highest surface) as background, containers and their accents form a pair with delta 10, and fixed and fixed-dim roles form a pair that stays together.",
 ["inputs","configurations"],"every role in every scheme (variant, darkness, contrast level, palettes, source colour)",
 "Tests render some roles of four seeds; the table spans 54 roles by variants by darkness by level.",
 ["src/dynamiccolor/material_dynamic_colors.rs"],[("MaterialDynamicColors::*","src/dynamiccolor/material_dynamic_colors.rs")])
p("C19","The counting quantizer counts every opaque pixel exactly",
 "For every pixel list, the counting quantizer's result maps each distinct fully opaque pixel to the number of times it occurs, contains no other key, and is independent of pixel order and of the requested maximum.",
 ["inputs"],"every pixel list of every length",
 "Not tested directly; only through Wu on a few pixels.",
 ["src/quantize/quantizer_map.rs"],[("QuantizerMap::quantize","src/quantize/quantizer_map.rs")])
p("C20","Wu quantization partitions the histogram and returns box means",
 "After building the histogram and cumulative moments of any opaque pixel population, the volume of any box is the exact weight, red, green or blue sum of the pixels in it (bottom and top halves likewise), with no overflow for any population up to 2^31 pixels. The returned colours number at most the requested maximum, are opaque, are each the rounded mean of the pixels of a box, the boxes are disjoint and cover the histogram, and every image with an opaque pixel yields at least one colour. The boxes come from greedy splitting: the box of greatest colour variance is split next, at the plane of the three directions that maximises the sum over both halves of the squared norm of the colour sum over the weight, and fewer boxes than the maximum are made only when no box with pixels in two histogram cells is left.",
 ["inputs"],"every pixel list and every positive maximum",
 "Tests quantize a few pixels with up to 256 colours; overflow needs millions of pixels.",
 ["src/quantize/quantizer_wu.rs"],[("construct_histogram/compute_moments/volume/top/bottom","src/quantize/quantizer_wu.rs"),("create_boxes/cut/maximize/create_result","src/quantize/quantizer_wu.rs")])
p("C21","K-means quantization conserves pixels and is deterministic",
 "For every non-empty pixel list, positive maximum and at least one iteration, the weighted k-means quantizer returns between one and max colours (at most the number of distinct pixels), each with positive population, populations summing to at most the number of pixels, and equal to it when no two clusters share a colour. When asked, it maps every input pixel to an output colour. Celebi quantization and k-means give equal results for equal inputs.",
 ["inputs","histories"],"every pixel list, maximum, starting clusters and iteration count",
 "Tests use single colours and a small list; nondeterminism only shows across processes or repeated runs.",
 ["src/quantize/quantizer_wsmeans.rs","src/quantize/quantizer_celebi.rs"],[("QuantizerWsmeans::quantize, QuantizerCelebi::quantize","src/quantize")])
p("C22","Scoring returns a bounded, distinct, order-independent ranking",
 "For every colour map with positive populations and positive desired count, scoring returns between 1 and desired colours, each an input colour unless the list is exactly the fallback; returned colours have pairwise hue distance of at least 15 degrees, and with filtering on have chroma of at least 5 and a share above 1% of nearby hues. Returned colours are in descending order of score, the first one has the maximum score of all eligible colours, the fallback is returned only when no colour is eligible, fewer than the desired number only when every other eligible colour is within 15 degrees of a chosen one, the spacing is the largest minimum hue distance from 90 down to 15 degrees that yields the desired number, and the result depends only on the population map.",
 ["inputs"],"every map from opaque colours to positive counts, desired count at least 1",
 "Tests use maps of a few colours.",
 ["src/score/score.rs"],[("Score::score","src/score/score.rs")])
p("C23","Temperature queries are total, ordered and keep the input",
 "For every opaque input colour, coldest and warmest have the minimum and maximum raw temperature of the colours at every whole-degree hue with the input's chroma and tone and the input itself, relative temperatures of these lie in [0,1], and nothing panics. Analogous colours for any count and divisions of at least 1 number exactly count with the input at index floor((count-1)/2), and the complement is one of the colours at whole-degree hues. Analogous colours other than the input are whole-degree hue colours at equal steps of accumulated temperature change, and the complement is the one on the opposite arc whose relative temperature is closest to 1 minus the input's. For a different from b, an angle is between a and b exactly when it lies on the increasing arc from a to b.",
 ["inputs"],"every opaque colour, every count and divisions of at least 1",
 "Tests use four colours; hues that round to 360 used to panic.",
 ["src/temperature/temperature_cache.rs"],[("TemperatureCache::*","src/temperature/temperature_cache.rs")])
p("C24","Disliked colours are exactly dark yellow-greens and are always repaired",
 "A colour is disliked exactly when its rounded hue lies in 90..111, its rounded chroma exceeds 16 and its rounded tone is below 65. Fixing returns liked colours unchanged and disliked ones as the colour solved for the same hue and chroma at tone 70, which is never disliked.",
 ["inputs"],"every HCT colour",
 "Tests use five bile colours and ten skin tones.",
 ["src/dislike/dislike_analyzer.rs"],[("DislikeAnalyzer::is_disliked/fix_if_disliked","src/dislike/dislike_analyzer.rs")])
p("C25","Blending stays between its end points and keeps what it promises",
 "Harmonizing a design colour towards a source returns the colour solved for the design colour's chroma and tone at its hue rotated along the shorter arc by half the hue difference but at most 15 degrees. Blending in CAM16-UCS by an amount gives the colour at the linear interpolation of the end points' UCS coordinates, so 0 gives the first and 1 the second colour; hue blending keeps the chroma and tone of the first colour and takes the hue of the UCS blend.",
 ["inputs"],"every pair of opaque colours and every amount in [0,1]",
 "Tests use eight harmonize pairs.",
 ["src/blend/blend.rs"],[("Blend::harmonize/hct_hue/cam16_ucs","src/blend/blend.rs")])
p("C26","CAM16 appearance values are well-formed and invertible",
 "For every opaque colour, CAM16 gives hue in [0,360), finite non-negative chroma, J in [0,100] (within rounding), M = C*FL^0.25 and UCS coordinates consistent with J, M and hue, and converting back to an integer or through XYZ gives the same colour; CAM16 values rebuilt from J, C, h or from UCS coordinates agree within 1e-6. Colour distance is symmetric, non-negative and zero for identical colours. Viewing conditions with default arguments are the sRGB ones, floor the background at 0.1, reject surrounds outside [0,2], and keep the degree of adaptation within [0,1].",
 ["inputs"],"every opaque colour, every UCS point of one, every surround in [0,2]",
 "Tests check six primaries.",
 ["src/hct/cam16.rs","src/hct/viewing_conditions.rs"],[("Cam16::from_*/to_int/viewed/xyz_in_viewing_conditions","src/hct/cam16.rs"),("ViewingConditions::make","src/hct/viewing_conditions.rs")])
p("C27","The HCT solver honours the requested tone, hue and chroma",
 "For every finite hue, chroma and tone, the tone of the solved colour is within 0.5 of the requested tone clamped to [0,100]. For tones in [10,95], its chroma exceeds the requested chroma by at most 3.5, falls short of the smaller of the requested chroma and the largest chroma available at that hue and tone by at most 3, and its hue is within 4 degrees of the requested hue when its chroma is at least 20; hues equal modulo 360 give the same colour (away from rounding).",
 ["inputs"],"every finite hue, chroma and tone",
 "Tests sweep a coarse lattice.",
 ["src/hct/src/hct_solver.rs"],[("HctSolver::solve_to_int, _find_result_by_j, _bisect_to_limit, _bisect_to_segment, _nth_vertex","src/hct/src/hct_solver.rs")])
p("C28","Hex strings and colours convert back and forth",
 "For every colour, its hex string is the six upper-case hexadecimal digits of its red, green and blue channels, preceded by # unless that is switched off, and parsing it gives the colour's low 24 bits. Parsing any string of up to 15 hexadecimal digits, in either case, with or without leading #, gives its value, and strings that are not hexadecimal numbers give nothing rather than a panic.",
 ["inputs"],"every integer colour, every string",
 "Tests use no hex conversions beyond printing.",
 [su],[("StringUtils::hex_from_argb/argb_from_hex",su)])
tp="src/palettes/tonal_palette.rs"
p("C29","A palette's key colour is the tone nearest 50 whose chroma fits",
 "The key colour of a palette made from a hue and a chroma is the colour solved for them at a whole tone from 1 to 99: among the tones within the smallest distance of 50 at which the closest chroma found rounds to the requested one (or among all of them when none does), the one whose chroma is closest to the requested chroma, the one looked at first (nearer to 50, then lighter) on ties. So it is tone 50 when that already fits, and no tone is closer when the chroma does not fit. The key colour of a palette made from an HCT colour is that colour, with its hue and chroma.",
 ["inputs"],"every hue and chroma, every HCT colour",
 "Tests check the key colours of three palettes; the search runs over 99 tones with a stop rule, and only an invariant over it covers every hue and chroma.",
 [tp],[("TonalPalette::create_key_color, of, from_hct",tp)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
print(len(P))
