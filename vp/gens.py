"""Generators shared by the checks. Everything they produce is plain data."""
from hypothesis import strategies as st
from .world import KEMPER

b7 = st.integers(0, 127)
v14 = st.integers(0, 16383)

cc = st.tuples(st.just("cc"), b7, b7)
pc = st.tuples(st.just("pc"), b7)


def sx(max_data=12):
    manu = st.one_of(st.just(list(KEMPER)), st.lists(b7, min_size=3, max_size=3).map(lambda l: [0] + l[1:]), st.lists(st.integers(1, 127), min_size=1, max_size=1))
    return st.tuples(st.just("sx"), manu, st.lists(b7, min_size=0, max_size=max_data))


# status bytes of other channel/system messages with the proper number of data bytes
raw = st.one_of(
    st.tuples(st.just("raw"), st.integers(0x80, 0x9f), b7, b7),
    st.tuples(st.just("raw"), st.integers(0xe0, 0xef), b7, b7),
    st.tuples(st.just("raw"), st.integers(0xd0, 0xdf), b7),
    st.tuples(st.just("raw"), st.sampled_from([0xf8, 0xfa, 0xfb, 0xfc, 0xfe])),
)
unknown = st.tuples(st.just("unknown"), st.sampled_from([0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf9, 0xfd, 0xff]))

any_message = st.one_of(cc, pc, sx(), raw, unknown)
color = st.tuples(st.integers(0, 255), st.integers(0, 255), st.integers(0, 255))


def rarely(strategy, default, p=4):
    return st.one_of(*([st.just(default)] * (p - 1)), strategy)
