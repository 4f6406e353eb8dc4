// The part of d3 v3.5.6 and d3-tip v0.6.3 an event plot can need, written from
// their documented behaviour.  Loaded as text into the page.
(function () {
    "use strict";
    var page = __page, document = page.document, window = page.window, clock = page.clock;
    var d3 = { version: "3.5.6", event: null };
    var strip = function (n) { return String(n).replace(/^svg:/, ""); };

    d3.extent = function (a, f) {
        var lo, hi;
        for (var i = 0; i < a.length; i++) {
            var v = f ? f.call(a, a[i], i) : a[i];
            if (v === null || v === undefined || v !== v) continue;
            if (lo === undefined || v < lo) lo = v;
            if (hi === undefined || v > hi) hi = v;
        }
        return [lo, hi];
    };
    d3.min = function (a, f) { return d3.extent(a, f)[0]; };
    d3.max = function (a, f) { return d3.extent(a, f)[1]; };
    d3.sum = function (a, f) { var s = 0; a.forEach(function (x, i) { s += +(f ? f(x, i) : x); }); return s; };
    d3.range = function (a, b, s) { if (b === undefined) { b = a; a = 0; } s = s || 1; var r = []; for (var x = a; x < b; x += s) r.push(x); return r; };
    d3.keys = function (o) { var r = []; for (var k in o) r.push(k); return r; };
    d3.values = function (o) { return d3.keys(o).map(function (k) { return o[k]; }); };
    d3.entries = function (o) { return d3.keys(o).map(function (k) { return { key: k, value: o[k] }; }); };
    d3.merge = function (a) { return [].concat.apply([], a); };
    d3.round = function (x, n) { return n ? Math.round(x * (n = Math.pow(10, n))) / n : Math.round(x); };
    d3.functor = function (v) { return typeof v === "function" ? v : function () { return v; }; };
    d3.rebind = function (t, s) {
        for (var i = 2; i < arguments.length; i++) (function (m) {
            t[m] = function () { var v = s[m].apply(s, arguments); return v === s ? t : v; };
        })(arguments[i]);
        return t;
    };
    function bisect(right) {
        return function (a, x, lo, hi) {
            lo = lo || 0; if (hi === undefined) hi = a.length;
            while (lo < hi) { var m = lo + hi >>> 1; if (right ? a[m] > x : a[m] >= x) hi = m; else lo = m + 1; }
            return lo;
        };
    }
    d3.bisectLeft = bisect(false);
    d3.bisect = d3.bisectRight = bisect(true);
    d3.bisector = function (f) {
        var g = function (right) {
            return function (a, x, lo, hi) {
                lo = lo || 0; if (hi === undefined) hi = a.length;
                while (lo < hi) { var m = lo + hi >>> 1, v = f(a[m]); if (right ? v > x : v >= x) hi = m; else lo = m + 1; }
                return lo;
            };
        };
        return { left: g(false), right: g(true) };
    };
    d3.format = function (s) {
        var m = /\.(\d+)f/.exec(s);
        return function (v) { return m ? (+v).toFixed(+m[1]) : String(v); };
    };

    // ------------------------------------------------------------- scales
    function linear(domain, range) {
        function scale(x) {
            // a scale whose domain has no width gives its first range value
            var d = domain[1] - domain[0];
            return range[0] + (range[1] - range[0]) * (d === 0 ? 0 : (x - domain[0]) / d);
        }
        scale.invert = function (y) {
            if (range[1] - range[0] === 0) return domain[0];
            return domain[0] + (domain[1] - domain[0]) * ((y - range[0]) / (range[1] - range[0]));
        };
        scale.domain = function (d) { if (!arguments.length) return domain.slice(); domain = Array.prototype.map.call(d, Number); return scale; };
        scale.range = function (r) { if (!arguments.length) return range.slice(); range = Array.prototype.slice.call(r); return scale; };
        scale.rangeRound = scale.range;
        scale.clamp = function () { return arguments.length ? scale : false; };
        scale.ticks = function (m) {
            var lo = Math.min(domain[0], domain[1]), hi = Math.max(domain[0], domain[1]), span = hi - lo;
            if (!isFinite(span) || !(span > 0)) return [];
            m = m || 10;
            var step = Math.pow(10, Math.floor(Math.log(span / m) / Math.LN10)), err = m / span * step;
            if (err <= .15) step *= 10; else if (err <= .35) step *= 5; else if (err <= .75) step *= 2;
            var out = [], i0 = Math.ceil(lo / step), i1 = Math.floor(hi / step + .5e-9);
            for (var i = i0; i <= i1 && out.length < 1000; i++) out.push(i * step);
            return out;
        };
        scale.tickFormat = function () { return function (v) { return String(v); }; };
        scale.nice = function () { return scale; };
        scale.copy = function () { return linear(domain.slice(), range.slice()); };
        return scale;
    }
    function ordinal(domain, range) {
        var index = {};
        function scale(x) {
            var k = String(x);
            if (!(("$" + k) in index)) index["$" + k] = domain.push(x) - 1;
            return range[index["$" + k] % range.length];
        }
        scale.domain = function (d) {
            if (!arguments.length) return domain;
            domain = []; index = {};
            for (var i = 0; i < d.length; i++) if (!(("$" + d[i]) in index)) index["$" + d[i]] = domain.push(d[i]) - 1;
            return scale;
        };
        scale.range = function (r) { if (!arguments.length) return range; range = r; return scale; };
        scale.copy = function () { return ordinal(domain.slice(), range.slice()).domain(domain); };
        return scale;
    }
    var C20 = ["#1f77b4", "#aec7e8", "#ff7f0e", "#ffbb78", "#2ca02c", "#98df8a", "#d62728", "#ff9896", "#9467bd", "#c5b0d5",
        "#8c564b", "#c49c94", "#e377c2", "#f7b6d2", "#7f7f7f", "#c7c7c7", "#bcbd22", "#dbdb8d", "#17becf", "#9edae5"];
    d3.scale = {
        linear: function () { return linear([0, 1], [0, 1]); },
        ordinal: function () { return ordinal([], []); },
        category20: function () { return ordinal([], C20.slice()); },
        category10: function () { return ordinal([], C20.filter(function (_, i) { return i % 2 === 0; })); }
    };

    // --------------------------------------------------------- selections
    function Sel(groups) { this.groups = groups; this.length = groups.length; for (var i = 0; i < groups.length; i++) this[i] = groups[i]; }
    function group(nodes, parent) { nodes = nodes.slice(); nodes.parentNode = parent; return nodes; }
    var P = Sel.prototype;
    P.each = function (fn) {
        for (var j = 0; j < this.groups.length; j++) for (var i = 0; i < this.groups[j].length; i++) {
            var n = this.groups[j][i];
            if (n) fn.call(n, n.__data__, i, j);
        }
        return this;
    };
    P.node = function () {
        for (var j = 0; j < this.groups.length; j++) for (var i = 0; i < this.groups[j].length; i++) if (this.groups[j][i]) return this.groups[j][i];
        return null;
    };
    P.nodes = function () { var r = []; this.each(function () { r.push(this); }); return r; };
    P.empty = function () { return !this.node(); };
    P.size = function () { var n = 0; this.each(function () { n++; }); return n; };
    P.call = function (fn) { var a = Array.prototype.slice.call(arguments); a[0] = this; fn.apply(null, a); return this; };
    P.attr = function (n, v) {
        if (arguments.length < 2) {
            if (typeof n === "string") { var x = this.node(); return x ? x.getAttribute(n) : null; }
            for (var k in n) this.attr(k, n[k]);
            return this;
        }
        return this.each(function () {
            var w = typeof v === "function" ? v.apply(this, arguments) : v;
            if (w === null || w === undefined) this.removeAttribute(n); else this.setAttribute(n, w);
        });
    };
    P.style = function (n, v) {
        if (arguments.length < 2) {
            if (typeof n === "string") { var x = this.node(); return x ? x.style.getPropertyValue(n) || (n === "width" ? "40px" : "") : null; }
            for (var k in n) this.style(k, n[k]);
            return this;
        }
        return this.each(function () {
            var w = typeof v === "function" ? v.apply(this, arguments) : v;
            if (w === null || w === undefined) this.style.removeProperty(n); else this.style.setProperty(n, w);
        });
    };
    P.property = function (n, v) { if (arguments.length < 2) return this.node()[n]; return this.each(function () { this[n] = typeof v === "function" ? v.apply(this, arguments) : v; }); };
    P.classed = function (n, v) {
        if (typeof n === "object") { for (var k in n) this.classed(k, n[k]); return this; }
        if (arguments.length < 2) { var x = this.node(); return !!x && x.classList.contains(n); }
        return this.each(function () {
            var w = typeof v === "function" ? v.apply(this, arguments) : v, e = this;
            n.split(/\s+/).forEach(function (c) { if (w) e.classList.add(c); else e.classList.remove(c); });
        });
    };
    P.text = function (v) {
        if (!arguments.length) { var x = this.node(); return x ? x.textContent : null; }
        return this.each(function () { var w = typeof v === "function" ? v.apply(this, arguments) : v; this.textContent = w === null || w === undefined ? "" : w; });
    };
    P.html = function (v) {
        if (!arguments.length) { var x = this.node(); return x ? x.innerHTML : null; }
        return this.each(function () { var w = typeof v === "function" ? v.apply(this, arguments) : v; this.innerHTML = w === null || w === undefined ? "" : w; });
    };
    P.datum = function (v) { return arguments.length ? this.property("__data__", v) : this.property("__data__"); };
    P.select = function (s) {
        return new Sel(this.groups.map(function (g, j) {
            var r = group(g.map(function (n, i) {
                if (!n) return null;
                var m = typeof s === "function" ? s.call(n, n.__data__, i, j) : n.querySelector(s);
                if (m && "__data__" in n) m.__data__ = n.__data__;
                return m;
            }), g.parentNode);
            return r;
        }));
    };
    P.selectAll = function (s) {
        var out = [];
        this.groups.forEach(function (g, j) {
            g.forEach(function (n, i) {
                if (n) out.push(group(Array.prototype.slice.call(typeof s === "function" ? s.call(n, n.__data__, i, j) : n.querySelectorAll(s)), n));
            });
        });
        return new Sel(out);
    };
    P.filter = function (f) {
        return new Sel(this.groups.map(function (g, j) {
            return group(g.filter(function (n, i) { return n && (typeof f === "function" ? f.call(n, n.__data__, i, j) : n.matches(f)); }), g.parentNode);
        }));
    };
    P.append = function (name) {
        return this.select(function () {
            return this.appendChild(typeof name === "function" ? name.apply(this, arguments) : document.createElement(strip(name)));
        });
    };
    P.insert = function (name, before) {
        return this.select(function () {
            var b = typeof before === "function" ? before.apply(this, arguments) : before ? this.querySelector(before) : null;
            return this.insertBefore(typeof name === "function" ? name.apply(this, arguments) : document.createElement(strip(name)), b);
        });
    };
    P.remove = function () { return this.each(function () { if (this.parentNode) this.parentNode.removeChild(this); }); };
    P.order = function () { return this; };
    P.interrupt = function () { return this.each(function () { this.__transition = (this.__transition || 0) + 1; }); };
    function Enter(groups, update) { this.groups = groups; this.update = update; this.length = groups.length; }
    Enter.prototype = Object.create(Sel.prototype);
    Enter.prototype.select = function (fn) {
        var up = this.update;
        return new Sel(this.groups.map(function (g, j) {
            return group(g.map(function (e, i) {
                if (!e) return null;
                var n = fn.call(g.parentNode, e.__data__, i, j);
                // what enters joins the selection that is updated
                if (n) { n.__data__ = e.__data__; up.groups[j][i] = n; }
                return n;
            }), g.parentNode);
        }));
    };
    Enter.prototype.empty = function () { return !this.groups.some(function (g) { return g.some(function (e) { return e; }); }); };
    Enter.prototype.size = function () { var n = 0; this.groups.forEach(function (g) { g.forEach(function (e) { if (e) n++; }); }); return n; };
    P.data = function (values, key) {
        if (!arguments.length) return this.groups[0].map(function (n) { return n && n.__data__; });
        var up = [], en = [], ex = [];
        this.groups.forEach(function (g, j) {
            var vs = typeof values === "function" ? values.call(g.parentNode, g.parentNode && g.parentNode.__data__, j) : values;
            var u = new Array(vs.length).fill(null), e = new Array(vs.length).fill(null), x = new Array(g.length).fill(null), i;
            if (key) {
                var by = {}, seen = {};
                g.forEach(function (n, i) {
                    if (!n) return;
                    var k = "$" + key.call(n, n.__data__, i);
                    if (k in by) x[i] = n; else by[k] = n;
                });
                for (i = 0; i < vs.length; i++) {
                    var k = "$" + key.call(g.parentNode, vs[i], i);
                    if (k in by && !(k in seen)) { u[i] = by[k]; u[i].__data__ = vs[i]; } else if (!(k in seen)) e[i] = { __data__: vs[i] };
                    seen[k] = 1;
                }
                g.forEach(function (n, i) { if (n && !(("$" + key.call(n, n.__data__, i)) in seen)) x[i] = n; });
            } else for (i = 0; i < Math.max(vs.length, g.length); i++) {
                if (i >= vs.length) x[i] = g[i];
                else if (g[i]) { g[i].__data__ = vs[i]; u[i] = g[i]; } else e[i] = { __data__: vs[i] };
            }
            u.parentNode = e.parentNode = x.parentNode = g.parentNode;
            up.push(u); en.push(e); ex.push(x);
        });
        var update = new Sel(up);
        update.enter = function () { return new Enter(en, update); };
        update.exit = function () { return new Sel(ex); };
        return update;
    };
    P.on = function (type, fn) {
        var m = /^([^.]*)(?:\.(.*))?$/.exec(type), t = m[1], ns = "d3." + (m[2] || "");
        if (arguments.length < 2) {
            var x = this.node(), l = x && x.listeners.filter(function (l) { return l.type === t && l.ns === ns; })[0];
            return l && l.raw;
        }
        return this.each(function (_, i, j) {
            var self = this;
            this.listeners = this.listeners.filter(function (l) { return !((!t || l.type === t) && l.ns === ns); });
            if (fn) this.listeners.push({
                type: t, ns: ns, raw: fn, fn: function (e) {
                    var old = d3.event;
                    d3.event = e;
                    try { fn.call(self, self.__data__, i, j); } finally { d3.event = old; }
                }
            });
        });
    };
    // a transition: attributes move there in steps of 50 ms, for 250 ms
    function Tr(sel, duration) { this.sel = sel; this.ms = duration === undefined ? 250 : duration; this.tweens = []; this.ends = []; this.started = false; }
    Tr.prototype = {
        duration: function (ms) { this.ms = +ms; return this; },
        delay: function () { return this; }, ease: function () { return this; },
        attr: function (n, v) { return this.add("attr", n, v); },
        style: function (n, v) { return this.add("style", n, v); },
        text: function (v) { this.sel.text(v); return this; },
        remove: function () { var s = this.sel; return this.each("end", function () { if (this.parentNode) this.parentNode.removeChild(this); }); },
        each: function (when, fn) { if (when === "end") this.ends.push(fn); else this.sel.each(when === "start" ? fn : when); return this; },
        call: P.call,
        select: function (s) { return new Tr(this.sel.select(s), this.ms); },
        selectAll: function (s) { return new Tr(this.sel.selectAll(s), this.ms); },
        transition: function () { return new Tr(this.sel, this.ms); },
        add: function (what, n, v) {
            var t = this;
            this.sel.each(function (d, i, j) {
                var node = this, b = typeof v === "function" ? v.call(node, d, i, j) : v;
                var a = what === "attr" ? node.getAttribute(n) : node.style.getPropertyValue(n);
                t.tweens.push(function (p) {
                    var w = p >= 1 || isNaN(+a) || isNaN(+b) ? (p >= 1 ? b : a) : +a + (b - a) * p;
                    if (w === null || w === undefined) return;
                    if (what === "attr") node.setAttribute(n, w); else node.style.setProperty(n, w);
                });
            });
            this.start();
            return this;
        },
        start: function () {
            if (this.started) return;
            this.started = true;
            var t = this, owners = [];
            this.sel.each(function () { this.__transition = (this.__transition || 0) + 1; owners.push([this, this.__transition]); });
            var t0 = clock.now;
            (function tick(first) {
                if (!first) {
                    if (owners.length && !owners.some(function (o) { return o[0].__transition === o[1]; })) return;
                    var p = t.ms > 0 ? Math.min(1, (clock.now - t0) / t.ms) : 1;
                    t.tweens.forEach(function (w) { w(p); });
                    if (p >= 1) { t.ends.forEach(function (f) { t.sel.each(f); }); return; }
                }
                clock.after(50, function () { tick(false); });
            })(true);
        }
    };
    P.transition = function () { return new Tr(this); };
    d3.transition = function (s) { return s instanceof Tr ? s : new Tr(s || d3.select(document.documentElement)); };
    d3.select = function (s) {
        var n = typeof s === "string" ? document.querySelector(s) : s;
        return new Sel([group([n], document.documentElement)]);
    };
    d3.selectAll = function (s) {
        return new Sel([group(Array.prototype.slice.call(typeof s === "string" ? document.querySelectorAll(s) : s), document.documentElement)]);
    };
    d3.selection = function () { return d3.select(document.documentElement); };
    d3.selection.prototype = P;
    d3.mouse = function (node) {
        var o = node.origin();
        return [d3.event.pageX - o[0], d3.event.pageY - o[1]];
    };
    d3.dispatch = function () {
        var l = {}, d = { on: function (t, f) { if (arguments.length < 2) return l[t]; l[t] = f; return d; } };
        Array.prototype.forEach.call(arguments, function (t) { d[t] = function () { if (l[t]) l[t].apply(this, arguments); return d; }; });
        return d;
    };
    // listeners of a behaviour get d3.event = the behaviour's own event
    function fire(listeners, node, e) {
        e.sourceEvent = d3.event;
        var fn = listeners[e.type];
        if (!fn) return;
        var old = d3.event;
        d3.event = e;
        try { fn.call(node, node.__data__, 0); } finally { d3.event = old; }
    }
    function onOf(listeners, self) {
        return function (types, fn) {
            if (arguments.length < 2) return listeners[types];
            String(types).split(/\s+/).forEach(function (t) { listeners[t.split(".")[0]] = fn; });
            return self();
        };
    }

    // ---------------------------------------------------------------- zoom
    d3.behavior = {
        zoom: function () {
            var view = { x: 0, y: 0, k: 1 }, extent = [0, Infinity], x0, x1, y0, y1, center = null, size = [960, 500], duration = 250, L = {};
            var zooming = 0, timer = null, at0, p0;
            function location(p) { return [(p[0] - view.x) / view.k, (p[1] - view.y) / view.k]; }
            function point(l) { return [l[0] * view.k + view.x, l[1] * view.k + view.y]; }
            function scaleTo(s) { view.k = Math.max(extent[0], Math.min(extent[1], s)); }
            function translateTo(p, l) { l = point(l); view.x += p[0] - l[0]; view.y += p[1] - l[1]; }
            function rescale() {
                if (x1) x1.domain(x0.range().map(function (x) { return (x - view.x) / view.k; }).map(x0.invert));
                if (y1) y1.domain(y0.range().map(function (y) { return (y - view.y) / view.k; }).map(y0.invert));
            }
            function started(n) { if (!zooming++) fire(L, n, { type: "zoomstart" }); }
            function zoomed(n) { rescale(); fire(L, n, { type: "zoom", scale: view.k, translate: [view.x, view.y] }); }
            function ended(n) { if (!--zooming) { fire(L, n, { type: "zoomend" }); center = null; } }
            function zoom(g) {
                g.on("mousedown.zoom", function () {
                    var that = this, l = location(d3.mouse(that)), w = d3.select(window);
                    page.stopAnimation(that);
                    started(that);
                    w.on("mousemove.zoom", function () { translateTo(d3.mouse(that), l); zoomed(that); })
                        .on("mouseup.zoom", function () { w.on("mousemove.zoom", null).on("mouseup.zoom", null); ended(that); });
                }).on("wheel.zoom", function () {
                    var that = this;
                    if (timer) clock.cancel(timer); else {
                        page.stopAnimation(that);
                        at0 = location(p0 = d3.mouse(that));
                        started(that);
                    }
                    timer = clock.after(50, function () { timer = null; ended(that); });
                    d3.event.preventDefault();
                    scaleTo(Math.pow(2, -d3.event.deltaY * .002) * view.k);
                    translateTo(p0, at0);
                    zoomed(that);
                }).on("dblclick.zoom", function () {
                    var p = d3.mouse(this), that = this, k = Math.log(view.k) / Math.LN2, l = location(p);
                    var from = [view.x, view.y, view.k], target = Math.max(extent[0], Math.min(extent[1], Math.pow(2, d3.event.shiftKey ? Math.ceil(k) - 1 : Math.floor(k) + 1)));
                    var to = [p[0] - l[0] * target, p[1] - l[1] * target, target];
                    started(that);
                    page.animate(that, duration, function (q) {
                        view = { x: from[0] + (to[0] - from[0]) * q, y: from[1] + (to[1] - from[1]) * q, k: from[2] + (to[2] - from[2]) * q };
                        zoomed(that);
                    }, function () { ended(that); });
                });
            }
            var self = function () { return zoom; };
            zoom.event = function (g) { g.each(function () { started(this); zoomed(this); ended(this); }); };
            zoom.translate = function (t) { if (!arguments.length) return [view.x, view.y]; view = { x: +t[0], y: +t[1], k: view.k }; rescale(); return zoom; };
            zoom.scale = function (k) { if (!arguments.length) return view.k; view = { x: view.x, y: view.y, k: null }; scaleTo(+k); rescale(); return zoom; };
            zoom.scaleExtent = function (e) { if (!arguments.length) return extent; extent = e === null ? [0, Infinity] : [+e[0], +e[1]]; return zoom; };
            zoom.center = function (c) { if (!arguments.length) return center; center = c; return zoom; };
            zoom.size = function (s) { if (!arguments.length) return size; size = s; return zoom; };
            zoom.duration = function (d) { if (!arguments.length) return duration; duration = +d; return zoom; };
            zoom.x = function (z) { if (!arguments.length) return x1; x1 = z; x0 = z.copy(); view = { x: 0, y: 0, k: 1 }; return zoom; };
            zoom.y = function (z) { if (!arguments.length) return y1; y1 = z; y0 = z.copy(); view = { x: 0, y: 0, k: 1 }; return zoom; };
            zoom.on = onOf(L, self);
            return zoom;
        }
    };

    // ------------------------------------------------------ axis and brush
    d3.svg = {
        axis: function () {
            var scale = d3.scale.linear(), orient = "bottom", args = [10], values = null, format = null;
            function axis(g) {
                (g instanceof Tr ? g.sel : g).each(function () {
                    var g = d3.select(this);
                    var ticks = values || (scale.ticks ? scale.ticks.apply(scale, args) : scale.domain());
                    var tick = g.selectAll(".tick").data(ticks, function (t) { return t; });
                    var enter = tick.enter().insert("g", ".domain").attr("class", "tick");
                    enter.append("line");
                    enter.append("text");
                    tick.exit().remove();
                    tick.attr("transform", function (t) { return "translate(" + scale(t) + ",0)"; });
                    tick.select("text").text(format || String);
                    var path = g.selectAll(".domain").data([0]);
                    path.enter().append("path").attr("class", "domain");
                    var r = scale.range();
                    path.attr("d", "M" + r[0] + ",6V0H" + r[1] + "V6");
                });
            }
            axis.scale = function (s) { if (!arguments.length) return scale; scale = s; return axis; };
            axis.orient = function (o) { if (!arguments.length) return orient; orient = o; return axis; };
            axis.ticks = function () { if (!arguments.length) return args; args = arguments; return axis; };
            axis.tickValues = function (v) { if (!arguments.length) return values; values = v; return axis; };
            axis.tickFormat = function (f) { if (!arguments.length) return format; format = f; return axis; };
            ["tickSize", "innerTickSize", "outerTickSize", "tickPadding", "tickSubdivide"].forEach(function (n) { axis[n] = function () { return axis; }; });
            return axis;
        },
        brush: function () {
            var x = null, y = null, xe = [0, 0], xd = null, clamp = true, L = {};
            function redrawX(g) {
                g.select(".extent").attr("x", xe[0]).attr("width", xe[1] - xe[0]);
                g.selectAll(".resize").attr("transform", function (d) { return "translate(" + xe[/e$/.test(d) ? 1 : 0] + ",0)"; });
            }
            function brush(sel) {
                (sel instanceof Tr ? sel.sel : sel).each(function () {
                    var g = d3.select(this).style("pointer-events", "all").on("mousedown.brush", start);
                    var bg = g.selectAll(".background").data([0]);
                    bg.enter().append("rect").attr("class", "background").style("visibility", "hidden");
                    g.selectAll(".extent").data([0]).enter().append("rect").attr("class", "extent");
                    var rs = g.selectAll(".resize").data(x ? ["e", "w"] : [], String);
                    rs.exit().remove();
                    rs.enter().append("g").attr("class", function (d) { return "resize " + d; }).append("rect").attr("width", 6).attr("height", 6);
                    if (x) {
                        var r = x.range();
                        bg.attr("x", r[0]).attr("width", r[1] - r[0]);
                        redrawX(g);
                    }
                });
            }
            function start() {
                var that = this, e = d3.event, g = d3.select(that), target = e.target;
                var resizing = /(?:^|\s)resize\s+([ew])/.exec(target.className || "");
                if (!resizing && target.parentNode) resizing = /(?:^|\s)resize\s+([ew])/.exec(target.parentNode.className || "");
                var dragging = target.classList.contains("extent");
                var origin = d3.mouse(that), offset = 0;
                origin = origin[0];
                if (dragging) origin = xe[0] - origin;
                else if (resizing) {
                    var ex = resizing[1] === "w" ? 1 : 0;
                    offset = xe[1 - ex] - origin;
                    origin = xe[ex];
                }
                var w = d3.select(window);
                w.on("mousemove.brush", move).on("mouseup.brush", function () {
                    w.on("mousemove.brush", null).on("mouseup.brush", null);
                    fire(L, that, { type: "brushend" });
                });
                fire(L, that, { type: "brushstart" });
                move();
                function move() {
                    var p = d3.mouse(that)[0] + offset, r = x.range(), r0 = r[0], r1 = r[1], min, max, size = xe[1] - xe[0], pos = origin;
                    if (dragging) { r0 -= pos; r1 -= size + pos; }
                    min = clamp ? Math.max(r0, Math.min(r1, p)) : p;
                    if (dragging) max = (min += pos) + size;
                    else if (pos < min) { max = min; min = pos; } else max = pos;
                    if (xe[0] !== min || xe[1] !== max) {
                        xd = null;
                        xe = [min, max];
                        redrawX(g);
                        fire(L, that, { type: "brush", mode: dragging ? "move" : "resize" });
                    }
                }
            }
            var self = function () { return brush; };
            brush.x = function (z) { if (!arguments.length) return x; x = z; return brush; };
            brush.y = function (z) { if (!arguments.length) return y; y = z; return brush; };
            brush.clamp = function (z) { if (!arguments.length) return clamp; clamp = !!z; return brush; };
            brush.extent = function (z) {
                if (!arguments.length) {
                    if (xd) return xd.slice();
                    var a = x.invert(xe[0]), b = x.invert(xe[1]);
                    return a > b ? [b, a] : [a, b];
                }
                xd = [+z[0], +z[1]];
                xe = [x(xd[0]), x(xd[1])];
                if (xe[1] < xe[0]) xe.reverse();
                return brush;
            };
            brush.clear = function () { if (!brush.empty()) { xe = [0, 0]; xd = null; } return brush; };
            brush.empty = function () { return !!x && xe[0] === xe[1]; };
            brush.event = function (g) { g.each(function () { ["brushstart", "brush", "brushend"].forEach(function (t) { fire(L, this, { type: t }); }, this); }); };
            brush.on = onOf(L, self);
            return brush;
        }
    };

    // ----------------------------------------------------------------- tip
    function makeTip() {
        var node = document.createElement("div"), html = function () { return ""; }, point;
        node.style.setProperty("opacity", "0");
        function tip(vis) {
            var el = vis.node();
            if (el.tagName.toLowerCase() !== "svg") el = el.ownerSVGElement;
            point = el.createSVGPoint() || {};
            document.body.appendChild(node);
        }
        tip.show = function () {
            if (!point) throw new TypeError("Cannot set property 'x' of undefined");
            node.innerHTML = html.apply(this, arguments);
            node.style.setProperty("opacity", "1");
            page.tip = node;
            return tip;
        };
        tip.hide = function () { node.style.setProperty("opacity", "0"); page.tip = null; return tip; };
        var sel = function () { return d3.select(node); };
        tip.attr = function (n, v) { if (arguments.length < 2) return sel().attr(n); sel().attr(n, v); return tip; };
        tip.style = function (n, v) { if (arguments.length < 2) return sel().style(n); sel().style(n, v); return tip; };
        tip.html = function (v) { if (!arguments.length) return html; html = d3.functor(v); return tip; };
        tip.direction = tip.offset = function () { return tip; };
        tip.destroy = function () { node.remove(); return tip; };
        return tip;
    }
    d3.__makeTip = makeTip;
    var lacks = page.lacks;
    lacks(d3, "d3.", "ascending descending mean median quantile variance deviation shuffle permute pairs zip transpose map nest set requote " +
        "transform interpolate interpolateNumber interpolateRound interpolateString interpolateRgb interpolateHsl interpolateLab interpolateHcl " +
        "interpolateArray interpolateObject interpolateTransform interpolateZoom interpolators ease timer ns xhr text json xml html csv tsv dsv " +
        "formatPrefix time geom geo layout hsl hcl lab rgb color touches touch locale random");
    lacks(d3.behavior, "d3.behavior.", "drag");
    lacks(d3.svg, "d3.svg.", "line area arc chord diagonal symbol symbolTypes");
    lacks(d3.scale, "d3.scale.", "sqrt pow log quantize threshold quantile identity category20b category20c");
    lacks(P, "selection.", "sort");
    lacks(Tr.prototype, "transition.", "attrTween styleTween tween filter size empty node interrupt selection");
    lacks(Function.prototype, "function.", "rangePoints rangeRoundPoints rangeBands rangeRoundBands rangeBand rangeExtent interpolate innerRadius " +
        "rootElement");
    window.d3 = d3;
})();
