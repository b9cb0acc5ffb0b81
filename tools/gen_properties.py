"""writes properties.jsonl (one place to edit the text)"""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}})


p("P01", "Group elements obey the group axioms in every parametrization",
  "For every group escnn provides and all elements a, b, c of it: products and inverses stay in the group, the product is associative, e@a = a@e = a, a@~a = e, and equality and hash are consistent with the element denoted (equal elements compare equal and hash equally whatever parameters built them; distinct ones compare unequal). "
  "Converting an element to any supported parametrization and back yields the same element, and composing or inverting elements given in any parametrization denotes the same element as in the default one.",
  ["inputs", "configurations"], "all elements (symbolic integers, angles, unit quaternions) of every group family; all supported parametrizations",
  "Tests sample a few dozen random elements of a few groups; axioms must hold for every triple and every wrap-around of angles and indices.",
  ["escnn/group/group.py", "escnn/group/groups/cyclicgroup.py", "escnn/group/groups/dihedralgroup.py", "escnn/group/groups/so2group.py", "escnn/group/groups/o2group.py", "escnn/group/groups/so3group.py", "escnn/group/groups/o3group.py", "escnn/group/groups/octa.py", "escnn/group/groups/ico.py", "escnn/group/directproduct.py"],
  [("_combine/_inverse/_equal/_hash_element/_change_param", "each group class"), ("GroupElement", "escnn/group/group.py")])

p("P02", "Representations are homomorphisms with the decomposition they declare",
  "For every representation rho the library builds (irreps, regular, quotient, induced, restricted, direct sums, tensor products, changes of basis) and all group elements a, b: rho(a@b) = rho(a)rho(b), rho(e) = 1, rho(~a) = rho(a)^-1, irreps are orthogonal, and the character equals the trace. "
  "Also rho(g) equals Q (direct sum of the listed irreps)(g) Q^-1 with change_of_basis_inv the true inverse, and size, is_trivial() and contains_trivial() agree with this decomposition.",
  ["inputs", "configurations"], "all pairs of group elements (symbolic for continuous groups, all for finite ones); every irrep up to the frequency bound and every constructor of representations",
  "Tests check a few sampled elements and frequencies and most of the representation tests are slow or skipped; an error at one frequency or one coset of elements is not sampled.",
  ["escnn/group/representation.py", "escnn/group/irrep.py", "escnn/group/groups/"],
  [("Representation / directsum / change_basis", "escnn/group/representation.py"), ("IrreducibleRepresentation", "escnn/group/irrep.py"), ("build_irrep_*", "escnn/group/groups/*.py")])

p("P03", "Subgroup maps and restricted representations are consistent",
  "For every subgroup id sid of a group G with (H, parent_map, child_map) = G.subgroup(sid): parent_map is an injective homomorphism H->G, child_map(parent_map(h)) = h, and child_map(g) is None exactly when g is not in parent_map(H). "
  "Restricting a representation (G.restrict_representation, G.restrict_irrep, rho.restrict) gives a representation of H equal to rho(parent_map(h)) for every h, and subgroups of subgroups embed like their combined id.",
  ["inputs", "configurations"], "all elements of H and G (symbolic angles and quaternions for continuous groups); every family of subgroup ids",
  "There are dozens of (group, subgroup id) families and each has its own coordinate change; the tests for subgroups take hours and sample elements.",
  ["escnn/group/group.py", "escnn/group/_numerical.py", "escnn/group/groups/so2group.py", "escnn/group/groups/o2group.py", "escnn/group/groups/so3group.py", "escnn/group/groups/o3group.py", "escnn/group/groups/dihedralgroup.py", "escnn/group/groups/cyclicgroup.py", "escnn/group/groups/octa.py", "escnn/group/directproduct.py"],
  [("_subgroup / _combine_subgroups / _restrict_irrep", "each group class")])

p("P04", "Intertwiner bases commute with the group and are complete",
  "The matrices returned by irrep.endomorphism_basis(), escnn.group.homomorphism_space and G._clebsh_gordan_coeff commute with the group action on both sides for every element. "
  "They are linearly independent and complete: every linear map commuting with the action is a combination of them, and G._tensor_product_irreps lists each irrep with its true multiplicity.",
  ["inputs", "configurations"], "all group elements (through generators or symbolic elements), all intertwining matrices (completeness is a solver query over an arbitrary matrix)",
  "Completeness quantifies over all matrices; tests only check that the coefficients returned commute at sampled elements.",
  ["escnn/group/irrep.py", "escnn/group/group.py", "escnn/group/_clebsh_gordan.py", "escnn/group/utils.py", "escnn/group/_numerical.py"],
  [("endomorphism_basis", "escnn/group/irrep.py"), ("_clebsh_gordan_coeff", "escnn/group/groups/*.py"), ("homomorphism_space", "escnn/group/__init__.py")])

p("P05", "Regular, quotient, induced and spectral representations act on cosets",
  "Regular and quotient representations act by permuting cosets g.(aH) = (ga)H, an induced representation is block-monomial with rho(h) of the subgroup on the coset of the identity, and the coset of the identity is fixed by H. "
  "HomSpace bases and Fourier/inverse-Fourier matrices satisfy f(g h) = f(g) for h in H (or the declared H-equivariance), transform by the representation they are declared with, and sampling then inverting returns the coefficients when the grid is large enough. The polyhedral and regular grids of elements are the (conjugated) finite subgroups, and sphere_grid returns elements that map the pole to the points of the grid.",
  ["inputs", "configurations"], "all elements of G and H and all coefficient vectors",
  "Tests sample elements for a few groups; most are in the skipped slow test files.",
  ["escnn/group/group.py", "escnn/group/homspace.py", "escnn/group/representation.py", "escnn/nn/modules/nonlinearities/fourier.py"],
  [("quotient_representation / induced_representation", "escnn/group/group.py"), ("HomSpace", "escnn/group/homspace.py")])

p("P06", "Steerable kernel bases satisfy the kernel constraint and are complete",
  "Every basis kernel K sampled by a KernelBasis satisfies K(g.x) = rho_out(g) K(x) rho_in(g)^-1 for every element g of its group and every point x, both in the basis returned by gspaces' build_kernel_basis and in its separate radial, angular and filter factors. "
  "The basis elements are linearly independent and the angular part is complete: for every input/output irrep pair and frequency the number of basis elements equals the dimension of the space of kernels solving the constraint.",
  ["inputs", "configurations"], "all points x of R^2/R^3 and all group elements; gspaces, irrep pairs and representations within the configured bound",
  "The kernel tests run at a handful of sampled points and group elements; a wrong basis for one frequency or irrep pair silently breaks equivariance or expressiveness.",
  ["escnn/kernels/basis.py", "escnn/kernels/polar_basis.py", "escnn/kernels/sparse_basis.py", "escnn/kernels/steerable_basis.py", "escnn/kernels/steerable_filters_basis.py", "escnn/kernels/wignereckart_solver.py", "escnn/kernels/r2.py", "escnn/kernels/r3.py", "escnn/gspaces/"],
  [("SteerableKernelBasis.sample", "escnn/kernels/steerable_basis.py"), ("WignerEckartBasis / RestrictedWignerEckartBasis", "escnn/kernels/wignereckart_solver.py"), ("CircularShellsBasis / SphericalShellsBasis", "escnn/kernels/polar_basis.py")])

p("P07", "Linear and convolution layers are equivariant for every weight and input",
  "Linear, R2Conv, R3Conv and their transposed versions satisfy f(g.x) = g.f(x) for every input, every weight and bias, and every group element acting exactly on the pixel grid (every element for Linear), in train and eval mode and for every combination of kernel size, stride, dilation, groups, padding, padding mode and recompute flag that maps grids to grids. "
  "The expanded bias only affects the invariant channels.",
  ["inputs", "configurations"], "all inputs and parameters in [-1,1]; generators of the group (or of the subgroup acting on the grid); configurations within the bound",
  "Tests check one random weight and input per configuration at tolerance ~1e-1 with bicubic rotations; small or rarely active errors are invisible to them.",
  ["escnn/nn/modules/linear.py", "escnn/nn/modules/conv/", "escnn/nn/modules/basismanager/", "escnn/kernels/"],
  [("R2Conv/R3Conv/R2ConvTransposed/R3ConvTransposed", "escnn/nn/modules/conv"), ("BlocksBasisExpansion", "escnn/nn/modules/basismanager/basisexpansion_blocks.py"), ("BlocksBasisSampler", "escnn/nn/modules/basismanager/basissampler_blocks.py")])

p("P08", "Nonlinearities, gates, tensor products and dropout are equivariant",
  "Pointwise, norm, gated, induced, concatenated, vector-field, Fourier, quotient-Fourier and tensor-product nonlinearities, invariant maps (GroupPooling, NormPool, InducedNormPool, MaxPoolChannels) satisfy f(rho_in(g) x) = rho_out(g) f(x) for every input, parameter value and group element (for Fourier nonlinearities: every element permuting the sampling grid). "
  "A representation lists 'pointwise', 'norm', 'gate' or an induced nonlinearity in supported_nonlinearities only if it commutes with its matrices. FieldDropout keeps or drops whole fields and both dropouts are the identity in eval mode.",
  ["inputs", "configurations"], "all inputs and parameters in [-1,1], generators of the group, contiguous and interleaved field types",
  "Tests draw a single random input; sign patterns, ties of gates with fields, interleaved types and special parameters are not explored.",
  ["escnn/nn/modules/nonlinearities/", "escnn/nn/modules/invariantmaps/", "escnn/nn/modules/dropout/"],
  [("forward", "escnn/nn/modules/nonlinearities/*.py"), ("forward", "escnn/nn/modules/invariantmaps/*.py")])

p("P09", "Normalization layers are equivariant in train and eval mode",
  "Batch/field normalization layers (InnerBatchNorm, NormBatchNorm, InducedNormBatchNorm, GNormBatchNorm, IIDBatchNorm1d/2d/3d, FieldNorm) commute with the group action for every input batch, parameter and running statistic, in train mode and eval mode. "
  "Running statistics updated by a training step are invariant: they are the same whichever group element the batch was transformed by, and equal the documented statistic of the batch mixed in with the momentum; reset_running_stats and reset_parameters bring back the state of a new layer.",
  ["inputs", "histories"], "all batches, affine parameters and running statistics; training step followed by evaluation; generators of the group",
  "Tests use one random batch; statistics drift over a training history and affine parameters start at their identity values, hiding most mistakes.",
  ["escnn/nn/modules/batchnormalization/", "escnn/nn/modules/normalization/"],
  [("forward", "escnn/nn/modules/batchnormalization/*.py")])

p("P10", "Pooling, upsampling and masking commute with grid symmetries",
  "Pooling (pointwise and norm max/avg pooling, antialiased and adaptive variants), R2Upsampling/R3Upsampling and MaskModule commute with every group element that maps the pixel grid to itself, for every input, and act on every field independently and identically. "
  "Antialiasing filters and upsampling weights sum to one (constants are preserved in the interior) and masks are invariant under the grid symmetries.",
  ["inputs", "configurations"], "all inputs; kernel sizes, strides, paddings and grid sizes within the bound; generators of the grid symmetry group",
  "Tests use a single image with loose tolerances and interpolated rotations.",
  ["escnn/nn/modules/pooling/", "escnn/nn/modules/rdupsampling.py", "escnn/nn/modules/masking_module.py"],
  [("forward", "escnn/nn/modules/pooling/*.py"), ("_RdUpsampling", "escnn/nn/modules/rdupsampling.py")])

p("P11", "Structural modules preserve content, types and equivariance",
  "ReshuffleModule, DisentangleModule, RestrictionModule, IdentityModule, SequentialModule, MultipleModule, BranchingModule/MergeModule and HarmonicPolynomial modules return a tensor of exactly out_type and commute with the group action of in_type/out_type (after restriction where they restrict). "
  "Reordering and splitting modules move each field's channels unchanged to the position out_type names, and merging/branching modules equal applying each submodule to its labelled fields.",
  ["inputs", "configurations"], "all inputs, all symbolic parameter values of the submodules, permutations and labelings within the bound",
  "The number of field orders and labelings is exponential; tests try one or two.",
  ["escnn/nn/modules/reshuffle_module.py", "escnn/nn/modules/disentangle_module.py", "escnn/nn/modules/restriction_module.py", "escnn/nn/modules/sequential_module.py", "escnn/nn/modules/multiple_module.py", "escnn/nn/modules/branching_module.py", "escnn/nn/modules/merge_module.py", "escnn/nn/modules/identity_module.py"],
  [("forward / export", "escnn/nn/modules/*.py")])

p("P12", "Exported modules compute the same function",
  "For every module offering export(), the exported plain PyTorch module returns, for every input, the same tensor as the equivariant module in eval mode, for every parameter value and running statistic and every configuration the constructor accepts. "
  "Exporting does not change what the original module computes afterwards.",
  ["inputs", "configurations"], "all inputs and all parameters/statistics; configurations within the bound",
  "The export tests are skipped or sample one default-initialised module per class; options such as padding_mode, output_padding, ceil_mode or momentum are not crossed.",
  ["escnn/nn/modules/"],
  [("export", "escnn/nn/modules/**/*.py")])

p("P13", "Cached filters never go stale over train/eval/load histories",
  "After any history of train(), eval(), parameter updates (followed by a switch to train mode if made in eval mode), forward passes and load_state_dict() of a state saved in the same mode, a module computes in eval mode the same outputs as in train mode with its current parameters (layers without batch statistics). "
  "Its state_dict() loads with strict=True into another module of the same configuration and mode, which then computes the same outputs in both modes.",
  ["histories", "inputs"], "all histories of the listed operations up to the length bound, all parameter values and inputs",
  "Staleness appears only after particular orders of mode switches, updates and loads; tests follow one order.",
  ["escnn/nn/modules/equivariant_module.py", "escnn/nn/modules/linear.py", "escnn/nn/modules/conv/", "escnn/nn/modules/pointconv/", "escnn/nn/modules/nonlinearities/"],
  [("train / _register filter buffers", "escnn/nn/modules/conv/rd_convolution.py, linear.py, pointconv")])

p("P14", "GeometricTensor slicing, splitting and arithmetic match plain tensors",
  "Indexing a GeometricTensor over batch, fields and space returns exactly the channels of the selected fields with the matching FieldType and coordinates; split() cuts at the named field positions, without modifying its argument, and tensor_directsum of the pieces restores the tensor. "
  "Addition, subtraction, multiplication by scalars, in-place variants and to() equal the tensor operation and keep the type; integer indices out of bounds and operands of different type are refused.",
  ["inputs", "configurations"], "all tensor entries; all slice starts, stops and steps, breakpoints and field layouts within the bound",
  "Slice arithmetic over fields of different sizes has many boundary cases (negative, open ended, empty, over-long) which tests touch only lightly.",
  ["escnn/nn/geometric_tensor.py"],
  [("__getitem__/split/tensor_directsum", "escnn/nn/geometric_tensor.py")])

p("P15", "evaluate_output_shape predicts the shape forward produces",
  "For every module and every input shape forward accepts, evaluate_output_shape(input_shape) equals the shape of forward's output. "
  "This includes every stride, padding, dilation, kernel size, output padding, ceil_mode and batch/spatial size combination.",
  ["inputs", "configurations"], "all input shapes and layer hyper-parameters (symbolic integers within a bound)",
  "Shape arithmetic depends on integer rounding of sizes, strides and paddings; tests check single sizes.",
  ["escnn/nn/modules/"],
  [("evaluate_output_shape", "escnn/nn/modules/**/*.py")])

p("P16", "Field types and G-spaces describe one consistent group action",
  "FieldType.transform/transform_fibers and GeometricTensor.transform equal the action rho(g) f(g^-1 x) of the declared representations for every element and feature map, basespace_action is an orthogonal homomorphism, and fields_start/fields_end, size, sorted(), index_select, group_by_labels, +, restrict() and equality/hash agree with the list of representations. "
  "Restricting a G-space gives maps and representations consistent with the original action.",
  ["inputs", "configurations"], "all group elements (symbolic for continuous fibers), feature maps and representation lists within the bound",
  "Tests only transform images approximately; type algebra on long lists with mixed sizes is hardly covered.",
  ["escnn/nn/field_type.py", "escnn/gspaces/"],
  [("FieldType", "escnn/nn/field_type.py"), ("GSpace.restrict / _basespace_action", "escnn/gspaces/*.py")])

p("P17", "Point convolutions are equivariant on every point cloud and graph",
  "R2PointConv and R3PointConv satisfy f(g.x, g.pos) = g.f(x, pos) for every feature, weight, point position and edge list, and do not depend on the order of edges. "
  "Expanding the filter first or applying the basis first, and eval or train mode, give the same result, which equals the mean over the incoming edges of the sampled kernel, at the offset between the points, times the neighbour's feature, plus the bias.",
  ["inputs", "configurations"], "all features, weights and symbolic group elements; point positions and graphs within the bound",
  "The point convolution tests are skipped or sample one random cloud.",
  ["escnn/nn/modules/pointconv/", "escnn/nn/modules/basismanager/basissampler_blocks.py"],
  [("_RdPointConv.forward", "escnn/nn/modules/pointconv/rd_point_convolution.py"), ("BlocksBasisSampler", "escnn/nn/modules/basismanager/basissampler_blocks.py")])

p("P18", "Basis metadata and expansions agree with the sampled bases",
  "Iterating a KernelBasis or SteerableFiltersBasis, indexing it (negative-free 0..dim-1), dim, shape, steerable_attrs iterators and sample/sample_as_dict agree on the number, order and attributes of basis elements; equal bases compare and hash equal and unequal ones do not. "
  "A basis expansion equals the weighted sum of the sampled basis elements named by get_basis_info, and get_element_info matches element by element.",
  ["inputs", "configurations"], "all weights; all bases and filters within the bound",
  "Metadata drives weight initialisation, filters and checkpoint loading, and no test compares it element by element with the sampled values.",
  ["escnn/kernels/", "escnn/nn/modules/basismanager/"],
  [("KernelBasis.__getitem__/__iter__", "escnn/kernels/basis.py"), ("get_basis_info", "escnn/nn/modules/basismanager/*.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
