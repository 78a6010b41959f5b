from trans import *
SOURCES = ['src/tree.cpp']
CONTRACTS = ['tree.vqc']
SPECS = ['tree.rs']


def setup(m, lib):
    HeapModel(m, 'tree_node_base', const=False, copy=True)
    m.records['tree_base'] = RecModel(m, 'tree_base', copy=True)
    m.records['tree_builder_base'] = RecModel(m, 'tree_builder_base', copy=True, bases=('tree_base',))
