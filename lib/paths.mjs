// Turns a state graph into walks from initial states that cover every transition.

export function rng(seed) {
    let s = (seed >>> 0) || 1;
    return () => {
        s ^= s << 13;
        s >>>= 0;
        s ^= s >>> 17;
        s ^= s << 5;
        s >>>= 0;
        return s / 4294967296;
    };
}

function adjacency(graph) {
    const out = Array.from({ length: graph.nodes.length }, () => []);
    graph.edges.forEach((e, i) => out[e[0]].push(i));
    return out;
}

/** Shortest paths from the initial states: for each node the incoming edge index, -1 for inits. */
export function bfsTree(graph, out = adjacency(graph)) {
    const parent = new Int32Array(graph.nodes.length).fill(-2);
    const queue = [...graph.inits];
    for (const i of graph.inits) parent[i] = -1;
    for (let h = 0; h < queue.length; h++) {
        for (const ei of out[queue[h]]) {
            const t = graph.edges[ei][2];
            if (parent[t] === -2) {
                parent[t] = ei;
                queue.push(t);
            }
        }
    }
    return parent;
}

export function pathTo(graph, parent, node) {
    const path = [];
    let n = node;
    while (parent[n] >= 0) {
        path.push(parent[n]);
        n = graph.edges[parent[n]][0];
    }
    return { init: n, edges: path.reverse() };
}

/**
 * Walks covering all edges (greedy, nearest uncovered edge first), each at most maxLen long, followed by
 * `random` extra random walks. Walk: {init, edges:[edge index]}.
 */
export function cover(graph, { maxLen = 40, seed = 1, random = 0, randomLen = 40, lookahead = 6 } = {}) {
    const rand = rng(seed * 7919 + 17);
    const out = adjacency(graph);
    const pending = out.map((l) => {
        const c = [...l];
        for (let i = c.length - 1; i > 0; i--) {
            const j = Math.floor(rand() * (i + 1));
            [c[i], c[j]] = [c[j], c[i]];
        }
        return c;
    });
    const covered = new Uint8Array(graph.edges.length);
    const parent = bfsTree(graph, out);
    const takePending = (n) => {
        const p = pending[n];
        while (p.length && covered[p[p.length - 1]]) p.pop();
        return p.length ? p[p.length - 1] : -1;
    };
    // short path from node n to a node with an uncovered edge, bounded depth
    const seek = (n) => {
        const seen = new Map([[n, -1]]);
        let frontier = [n];
        for (let d = 0; d < lookahead && frontier.length; d++) {
            const next = [];
            for (const u of frontier) {
                for (const ei of out[u]) {
                    const t = graph.edges[ei][2];
                    if (seen.has(t)) continue;
                    seen.set(t, ei);
                    if (takePending(t) >= 0) {
                        const path = [];
                        let x = t;
                        while (seen.get(x) !== -1) {
                            path.push(seen.get(x));
                            x = graph.edges[seen.get(x)][0];
                        }
                        return path.reverse();
                    }
                    next.push(t);
                }
                if (seen.size > 4000) return null;
            }
            frontier = next;
        }
        return null;
    };
    const walks = [];
    const order = graph.edges.map((_, i) => i);
    // start from edges whose source is nearest to an initial state
    for (const start of order) {
        if (covered[start]) continue;
        const src = graph.edges[start][0];
        if (parent[src] === -2) continue;
        const p = pathTo(graph, parent, src);
        const walk = [...p.edges, start];
        for (const ei of walk) covered[ei] = 1;
        let n = graph.edges[start][2];
        while (walk.length < maxLen) {
            let ei = takePending(n);
            if (ei < 0) {
                const s = seek(n);
                if (!s || walk.length + s.length >= maxLen) break;
                for (const x of s) {
                    walk.push(x);
                    covered[x] = 1;
                }
                n = graph.edges[s[s.length - 1]][2];
                ei = takePending(n);
                if (ei < 0) continue;
            }
            walk.push(ei);
            covered[ei] = 1;
            n = graph.edges[ei][2];
        }
        walks.push({ init: p.init, edges: walk });
    }
    for (let r = 0; r < random && graph.inits.length; r++) {
        let n = graph.inits[Math.floor(rand() * graph.inits.length)];
        const init = n;
        const walk = [];
        while (walk.length < randomLen && out[n].length) {
            const ei = out[n][Math.floor(rand() * out[n].length)];
            walk.push(ei);
            n = graph.edges[ei][2];
        }
        walks.push({ init, edges: walk });
    }
    // initial states with no outgoing edge still get compared
    for (const i of graph.inits) if (!out[i].length) walks.push({ init: i, edges: [] });
    return walks;
}
