/* Runs pages that trappy made, with its real JavaScript, against stand-ins for
 * the libraries it uses (d3 3.5, d3-tip, jQuery, Dygraph 1.1, requirejs), and
 * reports what is on the page.
 *
 * stdin: a JSON list of jobs {pages: [html or {rerun}], js: {module: file}, width, steps: [...]}
 * stdout: a JSON list of results {error} or {obs: [...]}
 */
'use strict';
var vm = require('vm');
var fs = require('fs');

/* ------------------------------------------------------------ elements */

function Node(tag, doc) {
    this.tag = tag.replace(/^svg:/, '').toLowerCase();
    this.tagName = this.tag.toUpperCase();
    this.attrs = {};
    this.styles = {};
    this.props = {};
    this.text = '';
    this.children = [];
    this.parentNode = null;
    this.handlers = {};
    this.ownerDocument = doc;
}
Object.defineProperty(Node.prototype, 'id', {get: function () { return this.attrs.id; }, set: function (v) { this.attrs.id = v; }});
Object.defineProperty(Node.prototype, 'childNodes', {get: function () { return this.children; }});
Object.defineProperty(Node.prototype, 'firstChild', {get: function () { return this.children[0] || null; }});
Object.defineProperty(Node.prototype, 'lastChild', {get: function () { return this.children[this.children.length - 1] || null; }});
Object.defineProperty(Node.prototype, 'textContent', {get: function () { return this.text; }, set: function (v) { this.text = String(v); this.children = []; }});
Object.defineProperty(Node.prototype, 'innerHTML', {get: function () { return this.html || this.text; }, set: function (v) { this.html = String(v); this.children = []; }});
Object.defineProperty(Node.prototype, 'style', {get: function () { return this.styles; }});
Object.defineProperty(Node.prototype, 'clientWidth', {get: function () { return widthOf(this); }});
Object.defineProperty(Node.prototype, 'offsetWidth', {get: function () { return widthOf(this); }});
Object.defineProperty(Node.prototype, 'className', {get: function () { return this.attrs['class'] || ''; }, set: function (v) { this.attrs['class'] = v; }});
Node.prototype.getAttribute = function (k) { return k in this.attrs ? String(this.attrs[k]) : null; };
Node.prototype.setAttribute = function (k, v) { this.attrs[k] = v; };
Node.prototype.removeAttribute = function (k) { delete this.attrs[k]; };
Node.prototype.appendChild = function (c) { return this.insertBefore(c, null); };
Node.prototype.insertBefore = function (c, before) {
    if (c.parentNode) c.parentNode.removeChild(c);
    var i = before ? this.children.indexOf(before) : -1;
    if (i < 0) this.children.push(c); else this.children.splice(i, 0, c);
    c.parentNode = this;
    return c;
};
Node.prototype.removeChild = function (c) {
    var i = this.children.indexOf(c);
    if (i >= 0) this.children.splice(i, 1);
    c.parentNode = null;
    return c;
};
Node.prototype.remove = function () { if (this.parentNode) this.parentNode.removeChild(this); };
Node.prototype.walk = function (fn) {
    for (var i = 0; i < this.children.length; i++) { fn(this.children[i]); this.children[i].walk(fn); }
};
Node.prototype.matches = function (sel) {
    if (sel === '*') return true;
    var m = /^([A-Za-z][\w:-]*)?((?:[.#][\w-]+)*)$/.exec(sel);
    if (!m) throw new Error('stand-in: selector ' + sel);
    if (m[1] && m[1].toLowerCase() !== this.tag) return false;
    var classes = String(this.attrs['class'] || '').split(/\s+/), self = this;
    return (m[2].match(/[.#][\w-]+/g) || []).every(function (p) {
        return p[0] === '#' ? self.attrs.id === p.slice(1) : classes.indexOf(p.slice(1)) >= 0;
    });
};
Node.prototype.find = function (sel) {
    var out = [], self = this;
    sel.split(',').forEach(function (one) {
        var parts = one.trim().replace(/\s*>\s*/g, ' ').split(/\s+/), roots = [self];
        parts.forEach(function (p) {
            var next = [];
            roots.forEach(function (r) { r.walk(function (c) { if (c.matches(p) && next.indexOf(c) < 0) next.push(c); }); });
            roots = next;
        });
        roots.forEach(function (r) { if (out.indexOf(r) < 0) out.push(r); });
    });
    return out;
};
Node.prototype.querySelector = function (s) { return this.find(s)[0] || null; };
Node.prototype.querySelectorAll = Node.prototype.find;
Node.prototype.addEventListener = function (t, f) { (this.handlers[t] = this.handlers[t] || {})['dom' + Object.keys(this.handlers[t]).length] = f; };
Node.prototype.getBoundingClientRect = function () { return {left: 0, top: 0, width: widthOf(this), height: 0, right: widthOf(this), bottom: 0}; };

function widthOf(n) {
    for (; n; n = n.parentNode) {
        if (n.tag === 'div' && n.pageWidth !== undefined) return n.pageWidth;
        if (n.parentNode === null && n.ownerDocument) return n.ownerDocument.pageWidth;
    }
    return 0;
}

/* -------------------------------------------------------------- jQuery */

function jquery(doc, win) {
    function JQ(nodes) { this.nodes = nodes; this.length = nodes.length; for (var i = 0; i < nodes.length; i++) this[i] = nodes[i]; }
    var P = JQ.prototype;
    function wrap(x) {
        if (x instanceof JQ) return x;
        if (typeof x === 'function') { x(); return new JQ([]); }
        if (x === win || x === doc || x instanceof Node) return new JQ([x]);
        if (typeof x === 'string' && x.trim()[0] === '<') {
            var n = new Node(/^<\s*([\w:-]+)/.exec(x.trim())[1], doc);
            n.html = x;
            return new JQ([n]);
        }
        if (typeof x === 'string') return new JQ(doc.body.find(x));
        if (Array.isArray(x)) return new JQ(x);
        throw new Error('stand-in: $(' + x + ')');
    }
    P.width = function (v) { if (v === undefined) return this.length ? widthOf(this.nodes[0]) : undefined; return this; };
    P.innerWidth = P.outerWidth = P.width;
    P.height = function (v) { return v === undefined ? 0 : this; };
    P.closest = function (sel) {
        for (var n = this.nodes[0]; n; n = n.parentNode) if (n.matches && n.matches(sel)) return new JQ([n]);
        return new JQ(sel === '.output_subarea' && this.length ? [doc.output] : []);
    };
    P.parent = function () { return new JQ(this.nodes.map(function (n) { return n.parentNode; }).filter(Boolean)); };
    P.find = function (sel) { return new JQ([].concat.apply([], this.nodes.map(function (n) { return n.find(sel); }))); };
    P.append = function (x) { var n = this.nodes[0]; if (n) wrap(x).nodes.forEach(function (c) { n.appendChild(c); }); return this; };
    P.prepend = P.append;
    P.html = function (v) { if (v === undefined) return this.nodes[0].html; this.nodes.forEach(function (n) { n.html = v; }); return this; };
    P.text = function (v) { if (v === undefined) return this.nodes[0].text; this.nodes.forEach(function (n) { n.text = String(v); }); return this; };
    P.attr = function (k, v) { if (v === undefined) return this.nodes[0] && this.nodes[0].attrs[k]; this.nodes.forEach(function (n) { n.attrs[k] = v; }); return this; };
    P.addClass = function (c) { this.nodes.forEach(function (n) { n.attrs['class'] = ((n.attrs['class'] || '') + ' ' + c).trim(); }); return this; };
    P.css = function (k, v) { if (v === undefined && typeof k === 'string') return undefined; return this; };
    P.on = function (types, fn) {
        this.nodes.forEach(function (n) {
            types.split(/\s+/).forEach(function (t) {
                var b = t.split('.')[0];
                // unlike d3, jQuery keeps every handler
                (n.handlers[b] = n.handlers[b] || {})['jq' + Object.keys(n.handlers[b]).length] = fn;
            });
        });
        return this;
    };
    P.bind = P.on;
    P.off = function (type) {
        this.nodes.forEach(function (n) { var b = type.split('.')[0]; Object.keys(n.handlers[b] || {}).forEach(function (k) { if (k.indexOf('jq') === 0) delete n.handlers[b][k]; }); });
        return this;
    };
    P.unbind = P.off;
    P.resize = function (fn) { return this.on('resize', fn); };
    P.each = function (fn) { this.nodes.forEach(function (n, i) { fn.call(n, i, n); }); return this; };
    P.remove = function () { this.nodes.forEach(function (n) { n.remove(); }); return this; };
    P.get = function (i) { return i === undefined ? this.nodes : this.nodes[i]; };
    P.modal = P.show = P.hide = P.empty = P.data = function () { return this; };
    function $(x) { return wrap(x); }
    $.each = function (coll, fn) {
        if (coll && typeof coll.length === 'number') { for (var i = 0; i < coll.length; i++) if (fn.call(coll[i], i, coll[i]) === false) break; }
        else for (var k in coll) if (fn.call(coll[k], k, coll[k]) === false) break;
        return coll;
    };
    $.map = function (a, fn) { return [].concat.apply([], Array.prototype.map.call(a, function (v, i) { return fn(v, i); })); };
    $.extend = function () { var a = Array.prototype.slice.call(arguments).filter(function (x) { return typeof x === 'object'; }); return Object.assign.apply(null, a); };
    $.inArray = function (v, a) { return a.indexOf(v); };
    $.grep = function (a, f) { return a.filter(f); };
    $.isEmptyObject = function (o) { return Object.keys(o).length === 0; };
    $.fn = P;
    return $;
}

/* ------------------------------------------------------------------ d3 */

function makeD3(doc, win) {
    var d3 = {version: '3.5.6', event: null};

    function linear() {
        var dom = [0, 1], ran = [0, 1], clamp = false;
        function poly(from, to, v, cl) {
            var i = 1;
            while (i < Math.min(from.length, to.length) - 1 && (from[0] <= from[from.length - 1] ? v > from[i] : v < from[i])) i++;
            var a = from[i - 1], b = from[i], t = b - a ? (v - a) / (b - a) : 0;
            if (cl) t = Math.max(0, Math.min(1, t));
            return to[i - 1] * (1 - t) + to[i] * t;
        }
        function s(v) { return poly(dom, ran, +v, clamp); }
        s.domain = function (d) { if (!arguments.length) return dom.slice(); dom = Array.prototype.map.call(d, Number); return s; };
        s.range = function (r) { if (!arguments.length) return ran.slice(); ran = Array.prototype.slice.call(r); return s; };
        s.rangeRound = s.range;
        s.invert = function (y) { return poly(ran, dom, +y, clamp); };
        s.clamp = function (c) { if (!arguments.length) return clamp; clamp = c; return s; };
        s.copy = function () { return linear().domain(dom).range(ran).clamp(clamp); };
        s.nice = function () { return s; };
        s.interpolate = function () { return s; };
        s.ticks = function () { return dom.slice(); };
        s.tickFormat = function () { return String; };
        return s;
    }
    function ordinal() {
        var dom = [], ran = [], index = {};
        function s(x) {
            if (!((typeof x + x) in index)) { index[typeof x + x] = dom.push(x) - 1; }
            return ran[index[typeof x + x] % ran.length];
        }
        s.domain = function (d) {
            if (!arguments.length) return dom.slice();
            dom = []; index = {};
            Array.prototype.forEach.call(d, function (x) { if (!((typeof x + x) in index)) index[typeof x + x] = dom.push(x) - 1; });
            return s;
        };
        s.range = function (r) { if (!arguments.length) return ran; ran = r; return s; };
        s.copy = function () { return ordinal().domain(dom).range(ran); };
        return s;
    }
    function cat(n) { return function () { var r = []; for (var i = 0; i < n; i++) r.push('#cat' + n + '-' + i); return ordinal().range(r); }; }
    d3.scale = {linear: linear, ordinal: ordinal, category10: cat(10), category20: cat(20), category20b: cat(20), category20c: cat(20)};
    d3.extent = function (a, f) {
        var vs = Array.prototype.map.call(a, f || function (x) { return x; }).filter(function (v) { return v !== null && v !== undefined && v === v; });
        return vs.length ? [vs.reduce(function (x, y) { return x <= y ? x : y; }), vs.reduce(function (x, y) { return x >= y ? x : y; })] : [undefined, undefined];
    };
    d3.min = function (a, f) { return d3.extent(a, f)[0]; };
    d3.max = function (a, f) { return d3.extent(a, f)[1]; };
    d3.sum = function (a, f) { return Array.prototype.map.call(a, f || Number).reduce(function (x, y) { return x + y; }, 0); };
    d3.round = function (x, n) { return n ? Math.round(x * (n = Math.pow(10, n))) / n : Math.round(x); };
    d3.range = function (a, b, c) { if (b === undefined) { b = a; a = 0; } c = c || 1; var r = []; for (; c > 0 ? a < b : a > b; a += c) r.push(a); return r; };
    d3.keys = Object.keys;
    d3.values = Object.values;
    d3.entries = function (o) { return Object.keys(o).map(function (k) { return {key: k, value: o[k]}; }); };
    d3.format = function (spec) { var m = /\.(\d+)f/.exec(spec); return function (v) { return m ? (+v).toFixed(+m[1]) : String(v); }; };
    d3.functor = function (v) { return typeof v === 'function' ? v : function () { return v; }; };
    d3.ascending = function (a, b) { return a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN; };
    d3.descending = function (a, b) { return d3.ascending(b, a); };
    function bisector(f) {
        return {
            left: function (a, x, lo, hi) { lo = lo || 0; if (hi === undefined) hi = a.length; while (lo < hi) { var m = lo + hi >>> 1; if (f(a[m]) < x) lo = m + 1; else hi = m; } return lo; },
            right: function (a, x, lo, hi) { lo = lo || 0; if (hi === undefined) hi = a.length; while (lo < hi) { var m = lo + hi >>> 1; if (f(a[m]) > x) hi = m; else lo = m + 1; } return lo; }
        };
    }
    d3.bisector = bisector;
    d3.bisectLeft = bisector(Number).left;
    d3.bisect = d3.bisectRight = bisector(Number).right;
    d3.svg = {
        line: function () {
            var fx = function (d) { return d[0]; }, fy = function (d) { return d[1]; };
            function l(data) { return data.map(function (d, i) { return (i ? 'L' : 'M') + ' ' + fx(d, i) + ' ' + fy(d, i); }).join(' '); }
            l.x = function (f) { fx = d3.functor(f); return l; };
            l.y = function (f) { fy = d3.functor(f); return l; };
            l.interpolate = function () { return l; };
            return l;
        },
        axis: function () {
            var sc = linear(), o = 'bottom';
            function a(g) {
                g.each(function () { this.axis = {domain: sc.domain(), range: sc.range(), orient: o}; });
            }
            a.scale = function (x) { if (!arguments.length) return sc; sc = x; return a; };
            a.orient = function (x) { if (!arguments.length) return o; o = x; return a; };
            ['ticks', 'tickValues', 'tickSize', 'tickPadding', 'tickFormat', 'innerTickSize', 'outerTickSize', 'tickSubdivide'].forEach(function (k) { a[k] = function () { return a; }; });
            return a;
        },
        brush: function () {
            var x = null, y = null, px = [0, 0], dom = null, on = {};
            function b(g) {
                g.each(function () {
                    var n = this;
                    n.brush = b;
                    if (!n.children.length) ['background', 'extent', 'resize'].forEach(function (c) { var r = new Node('rect', doc); r.attrs['class'] = c; n.appendChild(r); });
                    n.shown = b.extent();
                });
            }
            b.x = function (z) { if (!arguments.length) return x; x = z; return b; };
            b.y = function (z) { if (!arguments.length) return y; y = z; return b; };
            b.extent = function (z) {
                if (!arguments.length) return dom ? dom.slice() : [x.invert(px[0]), x.invert(px[1])];
                dom = [z[0], z[1]];
                px = [x(dom[0]), x(dom[1])];
                if (px[1] < px[0]) px.reverse();
                return b;
            };
            b.empty = function () { return px[0] === px[1]; };
            b.clear = function () { px = [0, 0]; dom = null; return b; };
            b.clamp = function () { return b; };
            b.on = function (t, f) { if (arguments.length < 2) return on[t]; on[t] = f; return b; };
            b.event = function (g) { g.each(function () { if (on.brush) on.brush.call(this); }); };
            b.userBrush = function (node, p0, p1) {
                var r = x.range(), lo = Math.min(r[0], r[1]), hi = Math.max(r[0], r[1]);
                px = [Math.max(lo, Math.min(hi, p0)), Math.max(lo, Math.min(hi, p1))];
                dom = null;
                d3.event = {type: 'brush', target: b, mode: 'resize', sourceEvent: {}};
                ['brushstart', 'brush', 'brushend'].forEach(function (t) { if (on[t]) on[t].call(node); });
                d3.event = null;
                node.shown = b.extent();
            };
            return b;
        }
    };
    d3.behavior = {
        zoom: function () {
            var view = {x: 0, y: 0, k: 1}, ext = [0, Infinity], x0 = null, x1 = null, y0 = null, y1 = null, on = {};
            function z(g) { g.each(function () { this.zoom = z; }); }
            function scaleTo(s) { view.k = Math.max(ext[0], Math.min(ext[1], s)); }
            function rescale() {
                if (x1) x1.domain(x0.range().map(function (v) { return (v - view.x) / view.k; }).map(x0.invert));
                if (y1) y1.domain(y0.range().map(function (v) { return (v - view.y) / view.k; }).map(y0.invert));
            }
            function fire(node, t) {
                d3.event = {type: t, scale: view.k, translate: [view.x, view.y], target: z, sourceEvent: {}};
                if (on[t]) on[t].call(node);
                d3.event = null;
            }
            z.translate = function (t) { if (!arguments.length) return [view.x, view.y]; view = {x: +t[0], y: +t[1], k: view.k}; rescale(); return z; };
            z.scale = function (s) { if (!arguments.length) return view.k; view = {x: view.x, y: view.y, k: null}; scaleTo(+s); rescale(); return z; };
            z.scaleExtent = function (e) { if (!arguments.length) return ext; ext = e === null ? [0, Infinity] : [+e[0], +e[1]]; return z; };
            z.x = function (s) { if (!arguments.length) return x1; x1 = s; x0 = s.copy(); view = {x: 0, y: 0, k: 1}; return z; };
            z.y = function (s) { if (!arguments.length) return y1; y1 = s; y0 = s.copy(); view = {x: 0, y: 0, k: 1}; return z; };
            z.center = z.size = z.duration = function () { return arguments.length ? z : null; };
            z.on = function (t, f) { if (arguments.length < 2) return on[t]; on[t] = f; return z; };
            z.event = function (g) { g.each(function () { fire(this, 'zoomstart'); rescale(); fire(this, 'zoom'); fire(this, 'zoomend'); }); };
            /* what d3 does for the wheel (factor) and for dragging (dx) */
            z.userZoom = function (node, p, factor, dx) {
                fire(node, 'zoomstart');
                if (factor !== 1) {
                    var l = (p - view.x) / view.k;
                    scaleTo(view.k * factor);
                    view.x += p - (l * view.k + view.x);
                }
                view.x += dx;
                rescale();
                fire(node, 'zoom');
                fire(node, 'zoomend');
            };
            return z;
        },
        drag: function () { function g() {} g.on = g.origin = function () { return g; }; return g; }
    };
    d3.tip = function () {
        var html = null, styles = {};
        function t(g) { g.each(function () { this.tip = t; }); }
        t.attr = t.direction = t.offset = t.rootElement = function () { return t; };
        t.html = function (f) { html = d3.functor(f); return t; };
        t.style = function (k, v) { if (arguments.length < 2) return k === 'width' ? '10px' : styles[k]; styles[k] = v; return t; };
        t.show = t.hide = t.destroy = function () { return t; };
        t.textOf = function (node) { return String(html.call(node, node.data)).replace(/<[^>]*>/g, ''); };
        return t;
    };
    d3.mouse = function () { return d3.event.point.slice(); };

    /* selections: lists of groups, as in d3 3.x */
    function Sel(groups, parents) { this.groups = groups; this.parents = parents; }
    var S = Sel.prototype;
    d3.selection = function () { return new Sel([[doc.body]], [null]); };
    d3.selection.prototype = S;
    S.each = function (fn) {
        this.groups.forEach(function (g, j) { g.forEach(function (n, i) { if (n) fn.call(n, n.data, i, j); }); });
        return this;
    };
    function setter(apply) {
        return function (k, v) {
            var self = this;
            if (typeof k === 'object') { Object.keys(k).forEach(function (kk) { setter(apply).call(self, kk, k[kk]); }); return this; }
            if (arguments.length < 2) { var n = this.node(); return n ? apply(n, k) : null; }
            return this.each(function (d, i, j) { apply(this, k, typeof v === 'function' ? v.call(this, d, i, j) : v, true); });
        };
    }
    S.attr = setter(function (n, k, v, set) { if (!set) return k in n.attrs ? String(n.attrs[k]) : null; if (v === null || v === undefined) delete n.attrs[k]; else n.attrs[k] = v; });
    S.style = setter(function (n, k, v, set) { if (!set) return k in n.styles ? String(n.styles[k]) : '0px'; if (v === null || v === undefined) delete n.styles[k]; else n.styles[k] = v; });
    S.property = setter(function (n, k, v, set) { if (!set) return n.props[k]; n.props[k] = v; });
    S.classed = function (k, v) {
        if (arguments.length < 2) return this.node().matches('.' + k);
        return this.each(function (d, i, j) {
            var on = typeof v === 'function' ? v.call(this, d, i, j) : v, cs = String(this.attrs['class'] || '').split(/\s+/).filter(function (c) { return c && c !== k; });
            if (on) cs.push(k);
            this.attrs['class'] = cs.join(' ');
        });
    };
    function content(field) {
        return function (v) {
            if (!arguments.length) return this.node() ? this.node()[field] : null;
            return this.each(function (d, i, j) { var x = typeof v === 'function' ? v.call(this, d, i, j) : v; this[field] = x === null || x === undefined ? '' : String(x); });
        };
    }
    S.text = content('text');
    S.html = content('html');
    function many(nodes, parent, bind) { var s = new Sel([nodes], [parent]); return s; }
    d3.select = function (x) {
        if (typeof x === 'string') return many([doc.body.find(x)[0] || null], doc.body);
        return many([x], x && x.parentNode || null);
    };
    d3.selectAll = function (x) { return typeof x === 'string' ? many(doc.body.find(x), doc.body) : many(Array.prototype.slice.call(x), null); };
    S.select = function (sel) {
        return new Sel(this.groups.map(function (g) {
            return g.map(function (n, i) {
                if (!n) return null;
                var c = typeof sel === 'function' ? sel.call(n, n.data, i) : n.find(sel)[0] || null;
                if (c && n.data !== undefined) c.data = n.data;
                return c;
            });
        }), this.parents);
    };
    S.selectAll = function (sel) {
        var groups = [], parents = [];
        this.each(function (d, i) { groups.push(typeof sel === 'function' ? Array.prototype.slice.call(sel.call(this, d, i)) : this.find(sel)); parents.push(this); });
        return new Sel(groups, parents);
    };
    S.data = function (values, key) {
        var self = this;
        if (!arguments.length) return this.groups[0].map(function (n) { return n.data; });
        var upd = [], ent = [], exi = [];
        this.groups.forEach(function (g, j) {
            var vs = typeof values === 'function' ? values.call(self.parents[j], self.parents[j] && self.parents[j].data, j) : values;
            vs = Array.prototype.slice.call(vs);
            var u = [], e = [], x = [];
            if (key) {
                var by = {};
                g.forEach(function (n) { if (n) { var k = key.call(n, n.data); if (k in by) x.push(n); else by[k] = n; } });
                vs.forEach(function (v, i) {
                    var k = key.call(vs, v, i);
                    if (by[k]) { by[k].data = v; u[i] = by[k]; e[i] = null; delete by[k]; } else { u[i] = null; e[i] = {data: v}; }
                });
                Object.keys(by).forEach(function (k) { x.push(by[k]); });
            } else {
                vs.forEach(function (v, i) { if (g[i]) { g[i].data = v; u[i] = g[i]; e[i] = null; } else { u[i] = null; e[i] = {data: v}; } });
                x = g.slice(vs.length);
            }
            upd.push(u); ent.push(e); exi.push(x);
        });
        var s = new Sel(upd, this.parents);
        s.enter = function () { return new Enter(ent, upd, self.parents); };
        s.exit = function () { return new Sel(exi, self.parents); };
        return s;
    };
    S.datum = function (v) { if (!arguments.length) return this.node().data; return this.each(function (d, i) { this.data = typeof v === 'function' ? v.call(this, d, i) : v; }); };
    function Enter(ent, upd, parents) { this.ent = ent; this.upd = upd; this.parents = parents; }
    Enter.prototype.append = function (tag) {
        var self = this;
        return new Sel(this.ent.map(function (g, j) {
            return g.map(function (e, i) {
                if (!e) return null;
                var n = typeof tag === 'function' ? tag.call(self.parents[j], e.data, i) : new Node(tag, doc);
                n.data = e.data;
                self.parents[j].appendChild(n);
                self.upd[j][i] = n;
                return n;
            });
        }), this.parents);
    };
    Enter.prototype.insert = Enter.prototype.append;
    Enter.prototype.size = function () { var n = 0; this.ent.forEach(function (g) { g.forEach(function (e) { n += !!e; }); }); return n; };
    Enter.prototype.empty = function () { return !this.size(); };
    Enter.prototype.call = function (f) { f.apply(null, [this].concat(Array.prototype.slice.call(arguments, 1))); return this; };
    S.append = function (tag) {
        return this.select(function (d, i) {
            var n = typeof tag === 'function' ? tag.call(this, d, i) : new Node(tag, doc);
            return this.appendChild(n);
        });
    };
    S.insert = function (tag, before) {
        return this.select(function (d, i) {
            var n = typeof tag === 'function' ? tag.call(this, d, i) : new Node(tag, doc);
            return this.insertBefore(n, typeof before === 'string' ? this.find(before)[0] : before ? before.call(this, d, i) : null);
        });
    };
    S.remove = function () { return this.each(function () { this.remove(); }); };
    S.call = function (f) { f.apply(this, [this].concat(Array.prototype.slice.call(arguments, 1))); return this; };
    S.on = function (type, fn) {
        if (arguments.length < 2) return null;
        return this.each(function () {
            var n = this, h = n.handlers, b = type.split('.')[0];
            h[b] = h[b] || {};
            if (fn) h[b]['d3:' + type] = function (ev) { var old = d3.event; d3.event = ev; try { fn.call(n, n.data, 0); } finally { d3.event = old; } };
            else delete h[b]['d3:' + type];
        });
    };
    S.node = function () { for (var j = 0; j < this.groups.length; j++) for (var i = 0; i < this.groups[j].length; i++) if (this.groups[j][i]) return this.groups[j][i]; return null; };
    S.nodes = function () { var o = []; this.each(function () { o.push(this); }); return o; };
    S.size = function () { return this.nodes().length; };
    S.empty = function () { return !this.node(); };
    S.filter = function (f) {
        return new Sel(this.groups.map(function (g) { return g.filter(function (n, i) { return n && (typeof f === 'string' ? n.matches(f) : f.call(n, n.data, i)); }); }), this.parents);
    };
    S.sort = S.order = S.interrupt = S.transition = S.duration = S.delay = S.ease = function () { return this; };
    S.tween = S.attrTween = function () { return this; };
    S.enter = function () { return new Enter(this.groups.map(function () { return []; }), this.groups, this.parents); };
    S.exit = function () { return new Sel([[]], [null]); };
    d3.transition = function (s) { return s || d3.selection(); };
    return d3;
}

/* ------------------------------------------------------------- Dygraph */

function makeDygraph(log) {
    function Dygraph(div, data, options) {
        if (!(div instanceof Node)) throw new Error('Dygraph without an element');
        this.div = div;
        this.opts = Object.assign({}, options);
        /* Dygraph says so on the console and draws nothing */
        this.rawData_ = data.length ? data.map(function (r) { return r.slice(); }) : null;
        this.given = data;
        this.sizes = [];
        log.push(this);
    }
    function extremes(g, cols) {
        if (!g.rawData_) return [0, 1];
        var lo = null, hi = null;
        g.rawData_.forEach(function (r) {
            cols(r).forEach(function (v) {
                if (v === null || v === undefined || v !== v) return;
                if (lo === null || v < lo) lo = v;
                if (hi === null || v > hi) hi = v;
            });
        });
        return [lo, hi];
    }
    Dygraph.prototype.xAxisRange = function () { return this.opts.dateWindow ? this.opts.dateWindow.slice() : this.xAxisExtremes(); };
    Dygraph.prototype.xAxisExtremes = function () { return this.rawData_ ? [this.rawData_[0][0], this.rawData_[this.rawData_.length - 1][0]] : [0, 1]; };
    Dygraph.prototype.yAxisRange = function () { return this.opts.valueRange ? this.opts.valueRange.slice() : extremes(this, function (r) { return r.slice(1); }); };
    Dygraph.prototype.yAxisRanges = function () { return [this.yAxisRange()]; };
    Dygraph.prototype.updateOptions = function (o) {
        var self = this;
        Object.keys(o).forEach(function (k) { if (k === 'file') self.rawData_ = o.file; else self.opts[k] = Array.isArray(o[k]) ? o[k].slice() : o[k]; });
    };
    Dygraph.prototype.resize = function (w, h) { this.sizes.push([w, h]); };
    Dygraph.prototype.ready = function (f) { f(this); };
    Dygraph.prototype.getOption = function (k) { return this.opts[k]; };
    Dygraph.prototype.numRows = function () { return this.rawData_ ? this.rawData_.length : 0; };
    Dygraph.prototype.numColumns = function () { return this.rawData_ && this.rawData_.length ? this.rawData_[0].length : 0; };
    Dygraph.prototype.getValue = function (r, c) { return this.rawData_[r][c]; };
    Dygraph.prototype.destroy = function () { this.dead = true; };
    Dygraph.synced = [];
    Dygraph.synchronize = function (graphs, opts) {
        var gs = Array.isArray(graphs) ? graphs.slice() : Array.prototype.slice.call(arguments).filter(function (a) { return a instanceof Dygraph; });
        var o = {graphs: gs, on: true, opts: opts || (Array.isArray(graphs) ? {} : arguments[arguments.length - 1])};
        Dygraph.synced.push(o);
        return {detach: function () { o.on = false; }};
    };
    return Dygraph;
}

/* ---------------------------------------------------------------- page */

function Page(job) {
    var self = this;
    var doc = new Node('document');
    doc.body = new Node('body', doc);
    doc.pageWidth = job.width;
    doc.output = new Node('div', doc);
    doc.output.pageWidth = job.width;
    doc.body.ownerDocument = doc;
    doc.getElementById = function (id) { return doc.body.find('#' + id)[0] || null; };
    doc.createElement = function (t) { return new Node(t, doc); };
    doc.createElementNS = function (ns, t) { return new Node(t, doc); };
    doc.querySelector = function (s) { return doc.body.querySelector(s); };
    doc.querySelectorAll = function (s) { return doc.body.querySelectorAll(s); };
    doc.documentElement = doc.body;
    this.doc = doc;
    this.graphs = [];
    this.errors = [];
    var win = new Node('window', doc);
    this.win = win;
    var sandbox = {document: doc, console: {log: function () {}, warn: function () {}, error: function () {}}};
    win.document = doc;
    this.d3 = makeD3(doc, win);
    this.Dygraph = makeDygraph(this.graphs);
    var $ = jquery(doc, win);
    sandbox.window = win;
    sandbox.$ = sandbox.jQuery = $;
    sandbox.d3 = this.d3;
    sandbox.Dygraph = this.Dygraph;
    sandbox.setTimeout = function (f) { f(); };
    var loaded = {};
    function load(path, paths) {
        var name = path;
        if (loaded[name]) return;
        loaded[name] = true;
        if (job.js[name]) vm.runInContext(fs.readFileSync(job.js[name], 'utf8'), self.ctx, {filename: job.js[name]});
    }
    function req(deps, cb) {
        if (typeof deps === 'function') { cb = deps; deps = []; }
        (deps || []).forEach(function (d) { load(d); });
        if (cb) cb();
    }
    req.config = function () { return req; };
    if (!job.exported) { sandbox.require = sandbox.requirejs = req; }
    this.ctx = vm.createContext(sandbox);
    this.names = {};
}

Page.prototype.show = function (html) {
    var self = this, re = /<script([^>]*)>([\s\S]*?)<\/script>/g, m, area = new Node('div', this.doc);
    var bare = html.replace(/<script[\s\S]*?<\/script>/g, '').replace(/<style[\s\S]*?<\/style>/g, '');
    var open = /<(div|table|svg)\b([^>]*)>/g, o;
    this.doc.body.appendChild(area);
    while ((o = open.exec(bare))) {
        var id = /id="([^"]*)"/.exec(o[2]), cls = /class="([^"]*)"/.exec(o[2]);
        if (!id) continue;
        var n = new Node(o[1], this.doc);
        n.attrs.id = id[1];
        if (cls) n.attrs['class'] = cls[1];
        area.appendChild(n);
    }
    while ((m = re.exec(html))) {
        if (/src=/.test(m[1])) continue;
        try { vm.runInContext(m[2], this.ctx, {filename: 'page'}); }
        catch (e) { self.errors.push((e && e.message ? e.name + ': ' + e.message + ' ' : '') + String(e && e.stack || e).split('\n').slice(0, 3).join(' ')); }
    }
    return area;
};

Page.prototype.fire = function (node, type, ev) {
    var hs = node.handlers[type] || {};
    Object.keys(hs).forEach(function (k) { hs[k].call(node, ev); });
};

function visible(n) {
    for (var p = n; p; p = p.parentNode) {
        if (p.attrs && (p.attrs.visibility === 'hidden' || p.attrs.display === 'none' || p.styles.visibility === 'hidden' || p.styles.display === 'none')) return false;
    }
    return true;
}

/* the horizontal strokes of a path: [x0, x1, y] */
function strokes(d) {
    var out = [], t = String(d).match(/[A-Za-z]|-?[\d.]+(?:e[-+]?\d+)?|NaN|-?Infinity/g) || [], x = 0, y = 0, c = null, i = 0;
    while (i < t.length) {
        if (/^[A-Za-z]$/.test(t[i])) c = t[i++];
        if (c === 'M') { x = +t[i++]; y = +t[i++]; c = 'L'; }
        else if (c === 'm') { x += +t[i++]; y += +t[i++]; c = 'l'; }
        else if (c === 'H') { out.push([x, +t[i], y]); x = +t[i++]; }
        else if (c === 'h') { out.push([x, x + +t[i], y]); x += +t[i++]; }
        else if (c === 'L' || c === 'l') {
            var nx = +t[i++] + (c === 'l' ? x : 0), ny = +t[i++] + (c === 'l' ? y : 0);
            if (ny === y) out.push([x, nx, y]); else out.push([x, nx, y, ny]);
            x = nx; y = ny;
        } else { out.push(['?', t[i]]); i++; }
    }
    return out;
}

function observeEvents(page, div) {
    var svgs = div.find('svg'), out = {charts: [], texts: []};
    svgs.forEach(function (svg) {
        var c = {cls: svg.attrs['class'], width: svg.attrs.width, height: svg.attrs.height, paths: [], axes: [], lanes: [], brush: [], guides: [], rects: [], texts: [], rules: []};
        svg.walk(function (n) {
            if (!visible(n)) return;
            if (n.tag === 'path' && n.attrs.d !== undefined) c.paths.push({color: n.attrs.stroke, name: n.tip ? n.tip.textOf(n) : null, w: n.attrs['stroke-width'], lines: strokes(n.attrs.d)});
            if (n.axis) c.axes.push(n.axis);
            if (n.brush) c.brush.push(n.shown);
            if (n.tag === 'text') {
                if (n.matches('.laneText')) c.lanes.push([n.text, +n.attrs.y]);
                else if (n.parentNode.children.some(function (s) { return s.tag === 'line'; }) && n.parentNode.tag === 'g' && n.parentNode.children.length === 2) {
                    var line = n.parentNode.children.filter(function (s) { return s.tag === 'line'; })[0];
                    c.guides.push({text: n.text, x: +n.attrs.x, x1: +line.attrs.x1, x2: +line.attrs.x2, color: line.styles.stroke || line.attrs.stroke});
                } else c.texts.push(n.text);
            }
            if (n.tag === 'line' && n.attrs.y1 === n.attrs.y2) c.rules.push([+n.attrs.x1, +n.attrs.x2, +n.attrs.y1]);
            if (n.tag === 'rect' && n.matches('.contextRect')) c.rects.push([+n.attrs.x, +n.attrs.width, +n.attrs.y, +n.attrs.height]);
        });
        out.charts.push(c);
    });
    return out;
}

function offset(n) {
    var x = 0, y = 0;
    for (; n; n = n.parentNode) {
        var m = n.attrs && /translate\(\s*(-?[\d.]+)[\s,]+(-?[\d.]+)/.exec(n.attrs.transform || '');
        if (m) { x += +m[1]; y += +m[2]; }
    }
    return [x, y];
}

function chartOf(div) { return div.find('svg').filter(function (s) { return s.zoom; })[0]; }

function runJob(job) {
    var page = new Page(job), areas = [], obs = [];
    var events = function () { return page.doc.body.find('.eventplot'); };
    var act = {
        show: function (s) { areas.push(page.show(s.html)); },
        clear: function (s) { areas[s.area].remove(); },
        zoom: function (s) { var c = chartOf(events()[s.plot || 0]); c.zoom.userZoom(c, s.p, s.factor, s.dx || 0); },
        brush: function (s) {
            var n = null;
            events()[s.plot || 0].walk(function (x) { if (x.brush) n = x; });
            n.brush.userBrush(n, s.p0, s.p1);
        },
        /* at pixel x of the view, in the middle of a lane */
        click: function (s) {
            var c = chartOf(events()[s.plot || 0]), axis = null, lane = null;
            c.walk(function (n) { if (n.axis) axis = n; if (n.matches('.laneText') && n.text === s.lane) lane = n; });
            s.x += offset(axis)[0];
            s.y = +lane.attrs.y + offset(lane)[1];
            var ev = {type: 'contextmenu', ctrlKey: !!s.ctrl, altKey: !!s.alt, button: 2, which: 3, point: [s.x, s.y], pageX: s.x, pageY: s.y, preventDefault: function () {}, stopPropagation: function () {}};
            page.fire(c, 'contextmenu', ev);
        },
        resize: function (s) {
            page.doc.pageWidth = s.width;
            page.doc.output.pageWidth = s.width;
            page.fire(page.win, 'resize', {type: 'resize'});
        },
        /* the user zooms into a graph; a synchronizer does so for the others */
        window: function (s) {
            var live = page.graphs.filter(function (g) { return g.rawData_ && page.doc.getElementById(g.div.attrs.id); }), g = live[s.graph];
            var peers = [g];
            page.Dygraph.synced.forEach(function (o) { if (o.on && o.graphs.indexOf(g) >= 0) peers = peers.concat(o.graphs); });
            var y = g.yAxisRange();
            peers.forEach(function (p) { p.updateOptions(p === g ? {dateWindow: s.range} : {dateWindow: s.range, valueRange: y}); });
        },
        events: function () { obs.push(events().map(function (d) { return observeEvents(page, d); })); },
        graphs: function () {
            obs.push(JSON.parse(JSON.stringify({
                graphs: page.graphs.map(function (g) {
                    var clean = function (a) { return a === null || a === undefined ? null : Array.prototype.slice.call(a).map(function (v) { return v === undefined ? null : v; }); };
                    return {id: g.div.attrs.id, xr: g.xAxisRange(), yr: g.yAxisRange(), ext: g.xAxisExtremes(), there: !!page.doc.getElementById(g.div.attrs.id), opts: g.opts, given: g.given.map(clean), raw: (g.rawData_ || []).map(clean), sizes: g.sizes};
                }),
                synced: page.Dygraph.synced.filter(function (s) { return s.on; }).map(function (s) { return {zoom: s.opts && s.opts.zoom, range: s.opts && s.opts.range, ids: s.graphs.map(function (g) { return g.div.attrs.id; })}; })
            })));
        }
    };
    try {
        job.steps.forEach(function (s) { act[s.do](s); });
    } catch (e) {
        return {error: String(e && e.stack || e).split('\n').slice(0, 4).join(' '), obs: obs, errors: page.errors};
    }
    return {obs: obs, errors: page.errors};
}

var jobs = JSON.parse(fs.readFileSync(0, 'utf8'));
process.stdout.write(JSON.stringify(jobs.map(runJob)));
