"""S1: control-flow substrate.  Every member function of the storage manager classes is a root in
which all dyscostman code is inlined; containers, streams, casacore and the numeric classes stay calls."""
from . import build, ir

KEEP = [r'^casacore::', r'^std::(map|vector|multimap|set|list|deque|thread|pair|allocator|_Rb_tree[A-Za-z0-9_]*|_Vector_base|basic_[a-z]+|__cxx11|ios_base|iterator|mersenne[A-Za-z0-9_]*|random_device|uniform[A-Za-z0-9_]*|filesystem|exception|runtime_error|__new_allocator)(<|::|$)',
        r'^std::(operator|fill|fill_n|copy|make_pair|__fill|__copy|_Destroy|_Construct|move_backward|__uninit|uninit|distance|advance|endl|flush)', r'^__gnu_cxx::(__normal_iterator|new_allocator|__alloc_traits|__aligned|operator|__exchange|__verify|__enable_if|__is|__min|__num|__to)',
        r'^aocommon::', r'^TimeBlockBuffer<', r'^(AF|RF|Row)TimeBlockEncoder::', r'^WeightBlockEncoder::', r'^dyscostman::StochasticEncoder',
        r'^dyscostman::BytePacker::(un)?pack[0-9]*$', r'^dyscostman::DyscoStManError']
ROOTS = [r'^dyscostman::(DyscoStMan|DyscoDataColumn|DyscoWeightColumn|ThreadedDyscoColumn<.*>|DyscoStManColumn)::',
         r'^std::thread::_State_impl<.*dyscostman.*>::_M_run$', r'^dyscostman::threadgroup::']
PIPE = ('always-inline,globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,'
        'early-cse<memssa>,loop-simplify)')


def load():
    raw = build.dump(build.library_units(),
                     ['--do-inline', '--clone-roots', '--pp=' + PIPE] + ['--root=' + x for x in ROOTS] + ['--keep=' + x for x in KEEP], 's1')
    return ir.Module(raw)
