"""Numeric substrate: one root per function of the encoders, with all dysco code inlined."""
import functools
from . import build, ir

KEEP = [r'^casacore::', r'^std::(thread|basic_[a-z]+|__cxx11|ios_base|mersenne[A-Za-z0-9_]*|random_device|uniform[A-Za-z0-9_]*|exception|runtime_error|__new_allocator|allocator)(<|::|$)',
        r'^std::vector<',
        r'^std::_Vector_base<', r'^std::(__fill|__copy|_Destroy|_Construct|__uninit|uninit|endl|flush|operator<<)',
        r'^aocommon::UVector<',
        r'^TimeBlockBuffer<.*>::ConvertVector',
        r'^dyscostman::StochasticEncoder<.*>::(Encode|EncodeWithDithering|Decode|MaxQuantity|MinQuantity)$',
        r'^dyscostman::BytePacker']
INL = [r'^(std::vector|aocommon::UVector)<.*>::(operator\[\]|c?begin|c?end|size|data|empty|front|back|at|_M_data_ptr|_M_range_check)$',
       r'^aocommon::UVector<.*>::assign']
PIPE = ('always-inline,globaldce,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,'
        'loop-simplify,lcssa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)')


def dump(units, roots, keep=KEEP, tag='num', pipe=PIPE):
    raw = build.dump(units, ['--do-inline', '--clone-roots', '--pp=' + pipe] + ['--root=' + x for x in roots] + ['--keep=' + x for x in keep] + ['--inl=' + x for x in INL], tag)
    return ir.Module(raw)


@functools.lru_cache(None)
def encoders():
    return dump(build.library_units(), [r'^(AF|RF|Row)TimeBlockEncoder::', r'^WeightBlockEncoder::'])


@functools.lru_cache(None)
def stochastic():
    """the table: searches stay calls"""
    keep = [x for x in KEEP if 'StochasticEncoder' not in x] + [r'^dyscostman::Dictionary::lower_bound']
    return dump(build.library_units(), [r'^dyscostman::StochasticEncoder<float>::'], keep, 'stoch')


@functools.lru_cache(None)
def dictionary():
    keep = [x for x in KEEP if 'StochasticEncoder' not in x]
    return dump(build.library_units(), [r'^dyscostman::Dictionary::lower_bound'], keep, 'dict')
