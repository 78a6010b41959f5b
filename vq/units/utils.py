from trans import *
SOURCES = ['src/utils.cpp']
CONTRACTS = ['encode.vqc', 'utils.vqc']
SPECS = ['utils.rs']


def setup(m, lib):
    m.records['xml_decode_grammar'] = RecModel(m, 'xml_decode_grammar')
