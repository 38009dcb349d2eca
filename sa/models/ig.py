"""Model of the parts of igraph the converter uses (interpreted abstractly, never executed).  Indices are stable."""


class Vertex:
    def __init__(self, g, index, attrs):
        self.g = g
        self.graph = g
        self.index = index
        self.d = attrs
        self.alive = True

    def __getitem__(self, k):
        return self.d.get(k)

    def __setitem__(self, k, v):
        self.d[k] = v

    def attributes(self):
        return self.d

    def out_edges(self):
        return [e for e in self.g.edges if e.alive and e.source == self.index]

    def in_edges(self):
        return [e for e in self.g.edges if e.alive and e.target == self.index]

    def all_edges(self):
        return self.in_edges() + self.out_edges()

    def outdegree(self):
        return len(self.out_edges())

    def indegree(self):
        return len(self.in_edges())

    def degree(self, mode='all'):
        if mode == 'out':
            return self.outdegree()
        if mode == 'in':
            return self.indegree()
        return self.indegree() + self.outdegree()

    def successors(self):
        return [e.target_vertex for e in self.out_edges()]

    def predecessors(self):
        return [e.source_vertex for e in self.in_edges()]

    def neighbors(self, mode='all'):
        if mode == 'out':
            return self.successors()
        if mode == 'in':
            return self.predecessors()
        return self.predecessors() + self.successors()


class Edge:
    def __init__(self, g, index, source_vertex, target_vertex, attrs):
        self.g = g
        self.graph = g
        self.index = index
        self.source_vertex = source_vertex
        self.target_vertex = target_vertex
        self.source = source_vertex.index
        self.target = target_vertex.index
        self.tuple = (source_vertex.index, target_vertex.index)
        self.vertex_tuple = (source_vertex, target_vertex)
        self.d = attrs
        self.alive = True

    def __getitem__(self, k):
        return self.d.get(k)

    def __setitem__(self, k, v):
        self.d[k] = v

    def attributes(self):
        return self.d


class Seq:
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        if isinstance(i, str):
            return [x[i] for x in self.items if x.alive]
        return self.items[i]

    def __iter__(self):
        return [x for x in self.items if x.alive]

    def __len__(self):
        return len([x for x in self.items if x.alive])

    def select(self, *args, **kwargs):
        r = [x for x in self.items if x.alive]
        for p in args:
            if callable(p):
                r = [x for x in r if p(x)]
            else:
                r = [x for x in r if x.index in p]
        for k, v in kwargs.items():
            if k == '_source':
                r = [x for x in r if x.source == v]
            elif k == '_target':
                r = [x for x in r if x.target == v]
            elif k.endswith('_in'):
                r = [x for x in r if x[k[:-3]] in v]
            else:
                r = [x for x in r if x[k] == v]
        return r

    def find(self, *args, **kwargs):
        r = self.select(*args, **kwargs)
        if len(r) == 0:
            raise ValueError('no such vertex')
        return r[0]


class Graph:
    def __init__(self, directed=True):
        self.vertices = []
        self.edges = []

    @property
    def vs(self):
        return Seq(self.vertices)

    @property
    def es(self):
        return Seq(self.edges)

    def vcount(self):
        return len(self.vs)

    def ecount(self):
        return len(self.es)

    def add_vertex(self, name=None, **attrs):
        attrs['name'] = name
        v = Vertex(self, len(self.vertices), attrs)
        self.vertices.append(v)
        return v

    def vertex_of(self, v):
        if isinstance(v, Vertex):
            return v
        if isinstance(v, str):
            return self.vs.find(name=v)
        return self.vertices[v]

    def add_edge(self, s, t, **attrs):
        e = Edge(self, len(self.edges), self.vertex_of(s), self.vertex_of(t), attrs)
        self.edges.append(e)
        return e

    def kill_vertex(self, v):
        v.alive = False
        for e in self.edges:
            if e.source == v.index or e.target == v.index:
                e.alive = False

    def delete_vertices(self, ids):
        if isinstance(ids, (int, str, Vertex)):
            ids = [ids]
        for i in ids:
            self.kill_vertex(self.vertex_of(i))

    def delete_edges(self, ids):
        if isinstance(ids, (int, Edge)):
            ids = [ids]
        for i in ids:
            e = i if isinstance(i, Edge) else self.edges[i]
            e.alive = False

    def copy(self):
        return self
