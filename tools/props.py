import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Sampling result never depends on the context's history",
 "Sampling an animation at a time ratio through any sampling context that is large enough produces exactly the local-space pose that a brand-new context produces, whatever that context did before: forward, backward or jumping ratios, other live animations (smaller or larger) sampled in between, clears, clones and saved-and-restored contexts. Only the SoA transforms that belong to the animation are written; the rest of a longer output buffer is left unchanged.",
 ["histories","inputs"],"every finite sequence of sample / switch animation / clear / clone / restore operations on contexts of any sufficient capacity, over every valid animation with or without seek (i-)frames",
 "The cache cursor has unboundedly many histories; the tests drive a few ratios on two or three hand-written animations and one recorded clip.",
 ["src/sampling_job.rs"],[("SamplingJob::run / update_cache / initialize_cache / outdate_cache","src/sampling_job.rs"),("SamplingContext clone/clear/serde/rkyv","src/sampling_job.rs")],
 [("entries","per-track right key currently cached","SamplingContextInner"),("next","cursor into the time-sorted key stream","SamplingContextInner"),("outdated","SoA groups to decompress","SamplingContextInner"),("animation_id, ratio","what the cache was last filled for","SamplingContextInner")],
 ["SamplingJob::output after run"])
p("C02","Sampled pose interpolates exactly the keys bracketing the time ratio",
 "Sampling at ratio r returns, for every track and independently for translation, rotation and scale, the linear interpolation (normalized for rotation) between the last key at or before r and the key that follows it, and returns a key's own value at that key's time. Ratios below 0 act as 0, ratios above 1 act as 1 and a NaN ratio acts as 1.",
 ["inputs","histories"],"every valid animation (any number of tracks, keys, distribution of key times, i-frame layout, 8 and 16 bit time tables) and every ratio",
 "Tests compare a handful of (animation, ratio) pairs; key selection depends on the interleaving of all tracks' keys in one time-sorted stream.",
 ["src/sampling_job.rs","src/animation.rs"],[("update_cache forward/rewind, decompress_*, interpolates","src/sampling_job.rs"),("timepoints / ratios / previouses layout","src/animation.rs")],
 None,["SamplingJob::output after run"])
p("C03","User-channel tracks evaluate to the right key, step or linear, at any ratio",
 "Sampling a user-channel track (float, 2/3/4-component vector or quaternion) at ratio r yields the linear interpolation (along the shorter way and normalized for quaternions) of the two keyframes surrounding r, or the left keyframe's value unchanged when that keyframe is a step key; at a keyframe's own ratio the result is that keyframe's value. Ratios outside [0,1] are clamped, so results equal the first and last keyframe's values there, and the job's result only depends on the track and the ratio of the current run.",
 ["inputs","histories"],"every well-formed track (any key count, any mix of step and linear keys) and every ratio, in any order",
 "Tests sample about ten ratios of fixed tracks.",
 ["src/track_sampling_job.rs","src/track.rs"],[("TrackSamplingJob::run","src/track_sampling_job.rs"),("Track steps bit set","src/track.rs")],
 None,["TrackSamplingJob::result"])
p("C04","Track triggering reports every threshold crossing exactly once, in order",
 "For any from/to ratios (forward, backward, inside one loop or spanning several loops, negative or far from zero) and threshold, the triggering iterator yields exactly the threshold crossings of the looping track (step and linear keys alike) within that interval, each once per loop, in travel order, with the right ratio and rising/falling flag, and always terminates. Edges alternate between rising and falling, playing an interval backward yields the mirror image of playing it forward (reverse order, flipped flags), and splitting an interval in consecutive pieces yields the same edges as playing it at once.",
 ["inputs","histories"],"every valid float track, threshold and pair (or chain) of finite ratios",
 "Tests use fixed tracks and a fixed list of ranges; loop and boundary handling is a case analysis over unbounded ratios.",
 ["src/track_triggering_job.rs"],[("TrackTriggeringIter::next / detect_edge / forward / backward","src/track_triggering_job.rs")],
 [("outer, inner","loop origin and key index of the iterator","TrackTriggeringIter")],["TrackTriggeringJob::run iterator"])
p("C05","Local-to-model composes every joint with its parent's model matrix",
 "After local-to-model runs, every updated joint's model matrix equals its parent's model matrix (the root matrix, or identity, for parentless joints) times its own local transform. A partial update (from / to / from-excluded) recomputes exactly the requested joint's subtree, limited to joints not after `to`, leaving every other matrix bit-for-bit unchanged, so partially updating after changing locals inside a subtree gives the same result as a full update.",
 ["inputs","histories"],"every skeleton hierarchy (any forest in depth-first order), local pose, root and from/to/from-excluded combination, and any sequence of such updates on one buffer",
 "Tests use one hierarchy of a dozen joints and a few ranges.",
 ["src/local_to_model_job.rs","src/math.rs"],[("LocalToModelJob::run","src/local_to_model_job.rs"),("AosMat4::from / mul","src/math.rs")],
 [("output","model-space matrices","LocalToModelJob")],["LocalToModelJob::output after run"])
p("C06","Skeleton traversal visits a joint's subtree, parents first",
 "Depth-first iteration from a joint visits exactly that joint and its descendants (or every joint when started at no joint), each once, parents before children and in joint order; reverse iteration visits all joints, children before parents. Leaf queries agree with the parent table, and name lookups are consistent both ways with each joint's name and index.",
 ["inputs"],"every valid hierarchy of any shape, including multi-root and single-joint skeletons, and every start joint",
 "Tests enumerate one or two skeletons.",
 ["src/skeleton.rs"],[("iter_depth_first, iter_depth_first_reverse, is_leaf, joint_by_name, name_by_joint","src/skeleton.rs")],
 None,["Skeleton public methods"])
p("C07","Blending is the weight-normalized average with rest pose fill-in",
 "Each joint of the blended pose is the weighted average of the layers' transforms, weights (layer weight times the joint's weight, negatives counted as zero) being normalized per joint, rotations blended along the shortest path and normalized, so uniformly scaling all weights changes nothing while the threshold is reached. Where the accumulated weight is below the threshold the rest pose fills the missing weight (and fully determines joints no layer contributes to), layers with weight 0 or less have no effect, and output transforms beyond the rest pose stay unchanged.",
 ["inputs","configurations"],"every number of layers, layer and per-joint weights, threshold, buffer lengths and SoA counts",
 "Tests check a few weight combinations on one or two SoA elements.",
 ["src/blending_job.rs"],[("blend_layers, blend_rest_pose, normalize","src/blending_job.rs")],
 [("accumulated_weights, num_partial_passes, num_passes","normalization bookkeeping","BlendingContext")],["BlendingJob::output after run"])
p("C08","Additive layers add, and negated ones subtract, after normalization",
 "Additive layers are applied after normal blending: a layer of weight w>0 adds w times its translation, composes its rotation interpolated from identity by w, and multiplies by its scale interpolated from one by w; a layer of weight w<0 applies the inverse with |w|, and weight 0 does nothing. Per-joint weights scale the effect joint by joint, layers apply in order, and adding then subtracting the same layer with the same weight restores the pose.",
 ["inputs","configurations"],"every additive layer list, weights of either sign, per-joint weights, with any underlying normal blend",
 "Tests use single additive layers with simple weights.",
 ["src/blending_job.rs"],[("add_layers","src/blending_job.rs")],None,["BlendingJob::output after run"])
p("C09","Motion blending is the normalized weighted mean of the layer deltas",
 "Blending motion deltas yields a translation along the weighted mean of the layers' translation directions (unit vectors), with the weighted mean of their lengths, and the weighted, shortest-path, normalized mean of the rotations; layers with weight 0 or less are ignored and the result does not depend on a common scale of the weights. With no contributing layer the result is the identity transform.",
 ["inputs"],"every number of layers, deltas and weights of either sign",
 "Tests cover a few weight lists.",
 ["src/motion_blending_job.rs"],[("MotionBlendingJob::run","src/motion_blending_job.rs")],None,["MotionBlendingJob::output after run"])
p("C10","Skinning transforms each vertex by its weighted joint matrices",
 "Every output position is the weighted sum of the influencing joint matrices applied to the input position, and normals and tangents are transformed as vectors by the weighted inverse-transpose matrices when provided and by the joint matrices otherwise; the last influence always receives the remaining weight so weights sum to one. This holds for every influence count (1, 2, 3, 4 and more) and every combination of positions, normals and tangents, exactly vertex_count vertices are written, and a joint index out of range gives an invalid-index error instead of undefined results.",
 ["inputs","configurations"],"every influence count, vertex count, attribute combination, joint palette, index and weight assignment",
 "There are 15+ specialized code paths; tests sample each on a few vertices.",
 ["src/skinning_job.rs"],[("SkinningJob::run dispatch and impl_1..impl_n variants","src/skinning_job.rs")],None,["SkinningJob outputs after run"])
p("C11","Validation and execution agree, and invalid jobs change nothing",
 "For every job, running succeeds when validation reports the job valid; when validation reports it invalid, running returns an error, never panics, and leaves every output buffer unchanged. Missing inputs, undersized or empty buffers and out-of-range settings are all covered by this contract (the one data-dependent failure, a skinning joint index out of range, is an invalid-index error of an otherwise valid job).",
 ["inputs","configurations"],"every subset of missing members and every combination of too-small, exact and too-large buffer sizes for every job type",
 "Tests try individual missing members; combinations are exponential.",
 ["src/sampling_job.rs","src/blending_job.rs","src/local_to_model_job.rs","src/skinning_job.rs","src/ik_aim_job.rs","src/ik_two_bone_job.rs","src/motion_blending_job.rs","src/track_sampling_job.rs","src/track_triggering_job.rs"],[("validate and run of every job","src/*_job.rs")],None,["Result of run/validate and output buffers"])
p("C12","Archives load identically in either byte order and bad ones are rejected",
 "Loading an animation, skeleton or track from an ozz archive yields exactly the object the archive encodes, whichever byte order it was written in and whichever time-index width it uses. An archive with another tag or another version, or truncated at any byte, yields an error and never a panic or a partial object.",
 ["inputs","fault_sequences"],"every archive produced by a conforming writer, in both byte orders, and every proper prefix of it",
 "Tests load fixed little-endian files written by one tool.",
 ["src/archive.rs","src/endian.rs","src/animation.rs","src/skeleton.rs","src/track.rs"],[("Archive::from_reader / read / read_tag / read_version","src/archive.rs"),("SwapEndian","src/endian.rs"),("from_archive of Animation, Skeleton, Track","src/*.rs")],None,["from_archive result"])
p("C13","Serialized objects and contexts restore to equal, equally behaving values",
 "Animations, skeletons, tracks and sampling or blending state survive serde round trips (text or binary formats, with or without names and counts, where the object offers itself to the format) and rkyv round trips: the restored object compares equal to the original and behaves identically in every job. A restored object never aliases the original's state.",
 ["inputs","histories"],"every object and every context state reachable by sampling",
 "Tests round-trip a few instances in one state.",
 ["src/animation.rs","src/skeleton.rs","src/track.rs","src/sampling_job.rs","src/math.rs"],[("serde and rkyv impls","src/*.rs")],None,["restored values and outputs computed from them"])
p("C14","Buffer ownership styles are interchangeable and safe to share",
 "A job gives the same result whether its inputs and outputs are slices, vectors, Rc<RefCell> or Arc<RwLock> buffers and whether its resources are owned, borrowed, Rc or Arc; immutable resources shared by concurrent jobs each with its own context and output behave as if used alone. A poisoned lock makes the job return the lock-poison error (validation reports invalid) without touching outputs, and every lock or borrow the job takes is released when it returns, on success and on error.",
 ["schedules","histories","fault_sequences"],"every interleaving of lock holders, poisonings and job runs, every buffer style, and every thread schedule over shared resources",
 "Tests run one style each on one thread.",
 ["src/base.rs","src/sampling_job.rs","src/blending_job.rs","src/local_to_model_job.rs","src/skinning_job.rs"],[("OzzBuf / OzzMutBuf / OzzObj impls","src/base.rs")],None,["job results and lock states"])
p("C15","Results are bit-identical across builds and platforms",
 "The same inputs give bit-for-bit the same job outputs on every platform and build configuration: debug or optimized, with or without wider SIMD or fused multiply-add instructions, native or wasm, at every step of any sequence of jobs. Repeating a run in another process gives the same bits.",
 ["configurations","inputs","histories"],"every input sequence and every supported target / optimization / target-feature configuration",
 "Tests run one build and compare with recorded values at fixed ratios.",
 ["src/math.rs","src/sampling_job.rs","src/blending_job.rs","src/ik_two_bone_job.rs","src/ik_aim_job.rs"],[("portable SIMD and own sin/cos/acos approximations","src/math.rs")],None,["output bit patterns"])
p("C16","Compressed keys decode to the values the archive format defines",
 "Every 16-bit half-float component of a translation or scale key decodes to exactly its IEEE half value, and every compressed rotation key decodes to the unit quaternion given by its three stored components, largest-component index and sign. The decoded value does not depend on which SIMD lane or which code path (key inspection or sampling) decodes it.",
 ["inputs"],"all 65536 half-float patterns in every component and lane, and the space of compressed quaternions",
 "Tests decode about ten values.",
 ["src/animation.rs","src/math.rs"],[("Float3Key / QuaternionKey decompress and simd_decompress","src/animation.rs"),("f16_to_f32, simd_f16_to_f32","src/math.rs")],None,["SamplingJob output at key times"])
p("C17","Two-bone IK reaches every reachable target and keeps the bone plane",
 "For a mid axis normal to the bones, the full corrections (weight at least 1) bring the chain's end joint onto any reachable target, and along the straight line towards an unreachable one as far as the bones and the softening curve allow; `reached` is true exactly when the target is within the softened reach of the bones and the weight is at least 1. Bone lengths never change, the chain bends in the plane given by the pole vector and twist angle (pole vector not aligned with the target), a weight of 0 or less yields identity corrections and `reached` false, and intermediate weights yield the normalized linear blend of identity and the full correction. Corrections are unit quaternions and depend on the job's current inputs only, never on earlier runs; a mid axis that is not normalized is refused and leaves the outputs unchanged.",
 ["inputs","configurations"],"every chain pose, target, pole vector, mid axis, twist, soften and weight",
 "Tests place the target at a dozen positions.",
 ["src/ik_two_bone_job.rs"],[("IKTwoBoneJob::run and its solver helpers","src/ik_two_bone_job.rs")],None,["start/mid corrections and reached flag"])
p("C18","Aim IK points the joint's forward axis at the target",
 "With weight 1 the correction rotates the joint so that its offset forward axis passes through the target whenever the target is farther from the joint than the offset allows, and `reached` says exactly whether that is the case; the up axis is brought as close as possible to the pole vector, rotated by the twist angle. An unreached target or a weight of 0 or less yields the identity correction, intermediate weights yield the normalized linear blend of identity and the full correction, and corrections are always unit quaternions that depend on the job's current inputs only, never on earlier runs; a forward vector that is not normalized is refused and leaves the outputs unchanged.",
 ["inputs","configurations"],"every joint frame, target, forward, offset, up, pole, twist and weight",
 "Tests place the target at a dozen positions.",
 ["src/ik_aim_job.rs"],[("IKAimJob::run and its solver helpers","src/ik_aim_job.rs")],None,["correction and reached flag"])
p("C19","Every job is a pure function of its current parameters",
 "Whatever happened before, the result of running a job depends only on the parameters it has now and on the present content of the shared buffers and objects they refer to: it equals what a new job with the same parameters computes, and an earlier run with the same parameters. A setter changes exactly its own parameter, its getter returns the value set (a sampling ratio clamped to 0..1), clear and take restore the documented default or absence, a shared buffer edited in place is seen by the next run, and running changes no parameter and no input. A job that misses a required parameter is invalid and its run fails without touching the outputs.",
 ["histories","configurations"],"every sequence of setting, clearing, taking, editing and running on every job, and every parameter value",
 "Tests set a job up once, run it once or a few times and look at the output.",
 ["src/blending_job.rs","src/sampling_job.rs","src/local_to_model_job.rs","src/ik_aim_job.rs","src/ik_two_bone_job.rs","src/skinning_job.rs","src/track_sampling_job.rs","src/track_triggering_job.rs","src/motion_blending_job.rs"],
 [("setters, getters, clear and take of every job","src/sampling_job.rs"),("job parameters and their buffers (OzzObj, OzzBuf)","src/base.rs")],[("parameters","what each setter last stored, or the default","src/sampling_job.rs"),("buffers","content of the shared inputs and outputs","src/base.rs")],["outputs, getters, buffer contents, validate and run results"])
p("C20","SoA containers work lane by lane",
 "SoaVec3, SoaQuat and SoaTransform hold four independent elements: writing element k changes element k only, reading it back yields what was written, splat and the named constants fill all four, and every operation (negation, addition, subtraction, scaling, interpolation, conjugate, quaternion product, dot product, normalization, nlerp, bit masks, making w positive, building affine matrices from translation, rotation and scale) yields in lane k exactly what its definition yields for the operands in lane k, whatever the other lanes hold, even not a number.",
 ["inputs","histories"],"every content of the four lanes and every sequence of operations",
 "Tests look at a few operand values, mostly equal in all lanes.",
 ["src/math.rs"],[("SoaVec3, SoaQuat, SoaTransform, SoaMat4","src/math.rs")],[("lanes","x, y, z (w) of each of four elements","src/math.rs")],["values of the lanes"])
p("C21","Deterministic sine, cosine, arc sine and arc cosine are accurate",
 "math::f32_sin_cos, f32_sin and f32_cos differ from the real sine and cosine by at most a few units of 2^-24 for every angle up to 8192 in absolute value; sine is exactly odd, cosine exactly even, the single functions return the very bits of the pair, and tiny angles are their own sine. f32_asin and f32_acos differ from the real arc sine and arc cosine by at most a few units of 2^-24 on [-1, 1], arguments outside (infinite ones too) act as the nearer end, arc sine is exactly odd and both add up to half pi.",
 ["inputs"],"every single precision argument in the stated ranges",
 "Tests compare a handful of angles with a loose tolerance.",
 ["src/math.rs"],[("fx4_sin_cos, fx4_asin, fx4_acos and the f32 functions on top of them","src/math.rs")],None,["returned values"])
p("C22","Archive reads depend on the bytes alone",
 "Reading any sequence of values (booleans, integers, floats, vectors, quaternions, zero-terminated strings, tags and versions, one by one, into vectors or into slices) from an archive yields exactly the values its bytes encode in the byte order its first byte declares, each read consuming exactly its own bytes; and it does so from every kind of source (slice, vector, file, path, any reader), in whatever pieces the source delivers them and however often it is interrupted. Running out of bytes or a failing source is reported as that I/O error, text that is not UTF-8 as such with the length of its valid part (reading can go on after the string), and no read panics.",
 ["inputs","schedules","fault_sequences"],"every byte sequence, sequence of typed reads, and schedule of partial deliveries, interruptions and failures of the source",
 "Tests read a tag and a version from one little-endian file.",
 ["src/archive.rs","src/endian.rs","src/base.rs"],[("Archive::new, from_*, read, read_vec, read_slice, read_tag, read_version, read_tag_version","src/archive.rs"),("ArchiveRead impls of primitives, vectors and strings","src/archive.rs"),("SwapEndian","src/endian.rs"),("OzzError from I/O and UTF-8 errors","src/base.rs")],
 [("cursor","next byte of the source","src/archive.rs"),("endian_swap","whether values are stored in the other byte order","src/archive.rs")],["values, errors and endian_swap()"])
p("C23","Every object owns its memory and nothing else",
 "Skeletons, animations, sampling contexts and tracks keep their arrays in memory of their own: every array a getter gives lies inside memory its object owns, aligned for its elements whatever the allocator, and apart from every other array, for every count of joints, tracks, keys and seek frames, zero included. Memory is asked for in non-zero sizes, and every block is given back exactly once, as it was taken: when its object is dropped (on any thread, in any order), when reading an archive fails, when a save, copy or run ends; after the last object is gone nothing is left. Nothing is read or written outside live blocks, and no result depends on what memory held before.",
 ["inputs","histories","fault_sequences"],"every history of making, copying, saving, restoring, sampling, failing to read and dropping objects of every size, and every content of fresh memory",
 "Tests create a few objects and never look at the allocator; an overlap of padding, a leak, a block given back with another layout, a read of stale memory or an address aligned by luck goes unseen.",
 ["src/skeleton.rs","src/animation.rs","src/sampling_job.rs","src/track.rs"],[("Skeleton::new and Drop: one block for rest poses and parents","src/skeleton.rs"),("Animation::new and Drop: one block for time points, keys and seek frames","src/animation.rs"),("SamplingContext::new, clone, Drop: one block for the header and the caches","src/sampling_job.rs"),("views by slice::from_raw_parts","src/animation.rs")],
 [("size, pointers","the block and the places of the arrays in it","src/animation.rs")],["the log of a global allocator: sizes, alignments and times of taking and giving back","addresses and lengths of the slices getters return","results under different contents of fresh memory, and next to unmapped pages"])
p("C24","Serialized data that does not fit together is refused",
 "Deserializing a sampling context, skeleton, animation or track (serde, any format), or checking an archived context (rkyv), never panics, aborts or reads outside the data, whatever its counts, lengths, places and parts say. Data whose arrays do not have the lengths its count asks for, or do not match each other, or lack or mistype a part the object cannot do without, gives an error; an archived context whose arrays do not lie inside the bytes before it, aligned, gives an error, as do SIMD values that are not at a multiple of 16 bytes and archives that were cut. (A context text may leave out arrays: it is made as SamplingContext::new(max_tracks) would, with the memory that takes.) What is accepted is restored to exactly what the data says, and whatever the library itself wrote is accepted, also inside other objects.",
 ["inputs"],"every change (and pairs of changes) of a count, a length, the place of an array or a part, of objects of every kind and size",
 "Tests only read back what was just written; data from another version, a broken file or an attacker makes lengths and places no test tries, and the reader then panics, runs out of memory or reads what is not its own.",
 ["src/sampling_job.rs","src/skeleton.rs","src/animation.rs","src/track.rs","src/math.rs"],[("CheckBytes for ArchivedSamplingContext and SIMD types","src/sampling_job.rs"),("serde Deserialize of contexts","src/sampling_job.rs"),("serde Deserialize of skeletons, animations and tracks","src/skeleton.rs")],
 [("max_tracks, key_count, array lengths and relative pointers","what a document says of itself","src/sampling_job.rs")],["accepted, refused or panicked, for each changed document","the arrays of the restored object against the changed document"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
