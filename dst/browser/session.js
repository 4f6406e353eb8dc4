// Replays a session in the browser: cells that are run and cleared, what the
// user does with the mouse and the window, how long scripts take to arrive.
// Reads it as JSON from stdin and writes what the user saw after each step.
"use strict";
const vm = require("vm"), fs = require("fs"), path = require("path");
const { unsupported, lacks, Clock, Node, Document, jQuery, makeRequire } = require("./dom.js");

const session = JSON.parse(fs.readFileSync(0, "utf8"));
const stub = n => fs.readFileSync(path.join(__dirname, n), "utf8");

const page = { width: session.width, clock: new Clock(), errors: [], consoleErrors: [], missing: [], graphs: [], dialogs: [], tip: null };
const win = new Node(null, "window");
const box = {};
for (const k of ["listeners"]) box[k] = win[k];
box.nodeType = 1;
box.tagName = "window";
box.attrs = {};
box.origin = () => [0, 0];
box.addEventListener = (type, fn) => { box.listeners.push({ type, fn }); };
box.removeEventListener = (type, fn) => { box.listeners = box.listeners.filter(l => l.type !== type || l.fn !== fn); };
page.lacks = lacks;
page.document = new Document(page);
page.window = box;
page.guard = fn => {
    try { return fn(); } catch (e) {
        page.errors.push(String(e && e.stack || e).split("\n").slice(0, 3).join(" | "));
    }
};
Object.defineProperty(box, "innerWidth", { get: () => page.width + 100 });
box.innerHeight = 800;
const animations = new Map();
page.stopAnimation = n => { const a = animations.get(n); if (a) { animations.delete(n); a(); } };
page.animate = (n, ms, step, end) => {
    page.stopAnimation(n);
    animations.set(n, end);
    const t0 = page.clock.now;
    const tick = () => {
        if (animations.get(n) !== end) return;
        const q = Math.min(1, (page.clock.now - t0) / ms);
        page.guard(() => step(q));
        if (q >= 1) { animations.delete(n); page.guard(end); } else page.clock.after(50, tick);
    };
    page.clock.after(17, tick);
};
let seed = session.seed || 1;
const rnd = () => (seed = (seed * 1103515245 + 12345) % 2147483648) / 2147483648;
Object.assign(box, {
    document: page.document, __page: page,
    setTimeout: (fn, ms) => page.clock.after(ms, fn), clearTimeout: id => page.clock.cancel(id),
    requestAnimationFrame: fn => page.clock.after(17, () => fn(page.clock.now)), cancelAnimationFrame: id => page.clock.cancel(id),
    console: { log() { }, info() { }, debug() { }, warn() { }, error: (...a) => page.consoleErrors.push(a.join(" ")) },
    navigator: { userAgent: "simulated" }
});
box.window = box.self = box;
page.document.defaultView = box;
box.$ = box.jQuery = jQuery(page);
const context = vm.createContext(box);
vm.runInContext("Math.random = __rnd; Date.now = () => __page.clock.now; delete globalThis.__rnd;", Object.assign(context, { __rnd: rnd }));

const LIBS = { d3: stub("d3.js"), tip: "d3.tip = function () { return d3.__makeTip(); };", dygraph: stub("dygraph.js"), sync: stub("synchronizer.js"), underscore: "var _ = __page.lacks({}, '_.', 'each forEach map collect reduce reduceRight find detect filter select where reject every all some any contains include invoke pluck max min sortBy groupBy indexBy countBy toArray size first last rest compact flatten without union intersection difference uniq unique zip object indexOf lastIndexOf range bind bindAll partial memoize delay defer throttle debounce once after wrap compose keys values pairs invert functions extend pick omit defaults clone tap has isEqual isEmpty isElement isArray isObject isFunction isString isNumber isFinite isBoolean isNaN isNull isUndefined noop identity constant property times random mixin uniqueId escape unescape result now template chain');" };
const fetch = url => {
    const f = url.replace(/^.*?plotter_scripts\//, "");
    if (!(f in session.files)) return null;
    const s = session.files[f];
    return s.lib ? LIBS[s.lib] : s.text;
};
const run = (text, url) => vm.runInContext(text, context, { filename: url, timeout: 20000 });
let loads = 0;
box.require = box.requirejs = makeRequire(page, fetch, run, () => session.delays[loads++ % session.delays.length]);

const cells = {};
function runCell(id, html) {
    clearCell(id);
    const out = page.document.createElement("div");
    out.setAttribute("class", "output_subarea");
    out.innerHTML = html;
    page.document.body.appendChild(out);
    cells[id] = out;
    for (const s of out.querySelectorAll("script"))
        page.guard(() => run(s.textContent, "cell " + id));
}
function clearCell(id) {
    if (cells[id]) cells[id].remove();
    delete cells[id];
}

// ------------------------------------------------------------ event plots
const num = s => parseFloat(s);
function segments(d) {
    const out = [], re = /M\s*([-+.\deE]+)[\s,]+([-+.\deE]+)\s*(?:H\s*([-+.\deE]+)|L\s*([-+.\deE]+)[\s,]+([-+.\deE]+))/g;
    let m;
    while ((m = re.exec(d || ""))) out.push([num(m[1]), num(m[3] !== undefined ? m[3] : m[4]), num(m[2])]);
    return out;
}
const absX = (n, x) => n.origin()[0] + x;
function shown(n, top) {
    for (let p = n; p && p !== top.parentNode; p = p.parentNode)
        if (p.attrs.visibility === "hidden" || p.style_.visibility === "hidden" || p.style_.display === "none") return false;
    return true;
}
function svgsOf(div) { return div.querySelectorAll("svg").filter(s => s.querySelectorAll(".domain").length); }
function frame(svg) {
    // where the axis is, and what it says
    const dom = svg.querySelectorAll(".domain");
    const d = dom[dom.length - 1], m = /M([-+.\deE]+),.*H([-+.\deE]+)/.exec(d.attrs.d), o = d.parentNode.origin(), so = svg.origin();
    return { x: o[0], x0: o[0] - so[0] + num(m[1]), x1: o[0] - so[0] + num(m[2]), y: o[1] - so[1], n: dom.length };
}
function chart(svg) {
    const so = svg.origin(), f = frame(svg), rel = (n, x) => n.origin()[0] - f.x + num(x), rely = (n, y) => n.origin()[1] - so[1] + num(y);
    const ticks = svg.querySelectorAll(".tick").map(t => [t.__data__, t.origin()[0] - f.x, t.textContent]);
    const bars = svg.querySelectorAll("path").filter(p => !p.classList.contains("domain") && shown(p, svg)).map(p => ({
        name: p.__data__ ? p.__data__.name : null, color: p.attrs.stroke || p.style_.stroke,
        segs: segments(p.attrs.d).map(s => [rel(p, s[0]), rel(p, s[1]), rely(p, s[2])])
    }));
    const r = { width: num(svg.attrs.width), height: num(svg.attrs.height), left: f.x0, right: f.x1, bottom: f.y, axes: f.n, ticks, bars };
    r.labels = svg.querySelectorAll("text").filter(t => t.__data__ && typeof t.__data__ === "object" && "label" in t.__data__)
        .map(t => [t.textContent, rely(t, t.attrs.y)]);
    r.lines = svg.querySelectorAll("line").filter(l => l.__data__ && typeof l.__data__ === "object" && "label" in l.__data__)
        .map(l => [rel(l, l.attrs.x1), rel(l, l.attrs.x2), rely(l, l.attrs.y1)]);
    r.marks = svg.querySelectorAll("text").filter(t => (t.textContent === "A" || t.textContent === "B") && t.parentNode.querySelectorAll("line").length === 1)
        .map(t => { const l = t.parentNode.querySelector("line"); return [t.textContent, rel(l, l.attrs.x1), rel(l, l.attrs.x2), l.style_.stroke || l.attrs.stroke, rel(t, t.attrs.x), t.style_.fill || t.attrs.fill, rely(l, l.attrs.y1), rely(l, l.attrs.y2)]; });
    r.rects = svg.querySelectorAll(".contextRect").map(n => [rel(n, n.attrs.x), rely(n, n.attrs.y), num(n.attrs.width), num(n.attrs.height)]);
    const ext = svg.querySelector(".extent");
    if (ext) r.brush = [rel(ext, ext.attrs.x), rel(ext, ext.attrs.x) + num(ext.attrs.width)];
    return r;
}
function eventPlot(div) {
    const s = svgsOf(div);
    const info = div.querySelectorAll("svg").filter(x => !s.includes(x));
    return {
        main: s[0] ? chart(s[0]) : null, mini: s[1] ? chart(s[1]) : null, svgs: div.querySelectorAll("svg").length,
        boxes: [].concat(...info.map(x => x.querySelectorAll("rect").map(b => [b.origin()[0] - x.origin()[0] + num(b.attrs.x), num(b.attrs.width)]))),
        texts: [].concat(...info.map(x => x.querySelectorAll("text").map(t => [t.textContent, t.origin()[0] - x.origin()[0] + num(t.attrs.x), t.attrs["text-anchor"] || t.style_["text-anchor"] || "start", t.style_.fill || t.attrs.fill || null]))),
        infoWidth: info.map(x => num(x.attrs.width)),
        info: [].concat(...info.map(x => x.querySelectorAll("text").map(t => t.textContent)))
    };
}
function event(type, more) {
    return Object.assign({ type, prevented: false, preventDefault() { this.prevented = true; }, stopPropagation() { this.stopped = true; }, ctrlKey: false, altKey: false, shiftKey: false, button: 0 }, more);
}
function dispatch(target, e) {
    e.target = target;
    for (let p = target; p && p.nodeType === 1 && !e.stopped; p = p.parentNode)
        for (const l of p.listeners.slice())
            if (l.type === e.type && p.listeners.includes(l)) page.guard(() => l.fn.call(p, e));
    if (!e.stopped && target !== box) toWindow(e);
    return e;
}
function toWindow(e) {
    for (const l of box.listeners.slice())
        if (l.type === e.type && box.listeners.includes(l)) page.guard(() => l.fn.call(box, e));
}
const at = (svg, fx, fy) => {
    const f = frame(svg), so = svg.origin();
    return { pageX: so[0] + f.x0 + fx * (f.x1 - f.x0), pageY: so[1] + (fy === undefined ? .5 : fy) * f.y };
};
function plotDiv(i) { return page.document.getElementById(i); }
const seen = {};
const OPS = {
    cell(s) { runCell(s.id, s.html); },
    clear(s) { clearCell(s.id); },
    resize(s) { page.width = s.width; const e = event("resize"); e.target = box; toWindow(e); },
    wait() { },
    wheel(s) {
        const svg = svgsOf(plotDiv(s.fig))[0];
        return { prevented: dispatch(svg, event("wheel", Object.assign({ deltaY: s.dy, deltaMode: 0 }, at(svg, s.x, .5)))).prevented };
    },
    dbl(s) {
        const svg = svgsOf(plotDiv(s.fig))[0], e = at(svg, s.x, .5);
        for (let i = 0; i < 2; i++) { dispatch(svg, event("mousedown", e)); toWindow(event("mouseup", e)); }
        dispatch(svg, event("dblclick", Object.assign({ shiftKey: !!s.shift }, e)));
    },
    drag(s) {
        const svg = svgsOf(plotDiv(s.fig))[0];
        const w0 = frame(svg);
        dispatch(svg, event("mousedown", at(svg, s.from, .5)));
        for (const x of s.moves) toWindow(event("mousemove", at(svg, x, .5)));
        toWindow(event("mouseup", at(svg, s.moves[s.moves.length - 1], .5)));
        return { width: w0.x1 - w0.x0 };
    },
    brush(s) {
        const svg = svgsOf(plotDiv(s.fig))[1];
        if (!svg) return { none: true };
        let target = svg.querySelector(s.part === "e" || s.part === "w" ? ".resize." + s.part : "." + s.part);
        if (!target) { page.errors.push("the summary has no " + s.part + " of a brush"); return {}; }
        const ext = svg.querySelector(".extent"), f = frame(svg);
        let from = s.from;
        const e0 = num(ext.attrs.x) / (f.x1 - f.x0), e1 = e0 + num(ext.attrs.width) / (f.x1 - f.x0);
        if (s.part === "extent") from = e0 + (e1 - e0) * s.from;
        if (s.part === "w") from = e0;
        if (s.part === "e") from = e1;
        dispatch(target, event("mousedown", at(svg, from)));
        for (const x of s.moves) toWindow(event("mousemove", at(svg, from + x)));
        toWindow(event("mouseup", at(svg, from + (s.moves.length ? s.moves[s.moves.length - 1] : 0))));
        return { from, e0, e1 };
    },
    mark(s) {
        const svg = svgsOf(plotDiv(s.fig))[0], e = Object.assign({ ctrlKey: !!s.ctrl, altKey: !!s.alt, button: 2 }, at(svg, s.x, s.y));
        if (s.press) { dispatch(svg, event("mousedown", e)); }
        const r = dispatch(svg, event("contextmenu", e));
        if (s.press) toWindow(event("mouseup", e));
        const f = frame(svg);
        return { prevented: r.prevented, px: s.x * (f.x1 - f.x0), chart: chart(svg) };
    },
    hover(s) {
        const svg = svgsOf(plotDiv(s.fig))[s.mini ? 1 : 0];
        const bars = svg ? svg.querySelectorAll("path").filter(p => !p.classList.contains("domain") && shown(p, svg)) : [];
        if (!bars.length) return { none: true };
        const b = bars[Math.min(bars.length - 1, Math.floor(s.nth * bars.length))], e = at(svg, .3, .5);
        dispatch(b, event("mouseover", e));
        dispatch(b, event("mousemove", e));
        const r = { name: b.__data__ && b.__data__.name, tip: page.tip ? page.tip.textContent : null };
        dispatch(b, event("mouseout", e));
        r.after = !!page.tip;
        return r;
    },
    help(s) {
        const b = plotDiv(s.fig).querySelector("button");
        if (!b || !b.attrs.onclick) return { none: true };
        const n = page.dialogs.length;
        page.guard(() => run(b.attrs.onclick, "onclick"));
        const d = page.dialogs[n], img = d && d.querySelector("img");
        return { dialogs: page.dialogs.length - n, img: img ? img.attrs.src : null, text: d ? d.textContent : null };
    },
    zoomx(s) {
        const g = graphOf(s.fig);
        if (!g || !g.numRows()) return { none: true };
        const w = g.xAxisRange(), f = q => w[0] + (w[1] - w[0]) * q, r = { a: f(s.part[0]), b: f(s.part[1]) };
        if (!(r.a < r.b)) return { none: true };
        page.guard(() => g.userZoomX_(r.a, r.b));
        return r;
    },
    zoomy(s) {
        const g = graphOf(s.fig);
        if (!g || !g.numRows()) return { none: true };
        const w = g.yAxisRange(), f = q => w[0] + (w[1] - w[0]) * q, r = { a: f(s.part[0]), b: f(s.part[1]) };
        page.guard(() => g.userZoomY_(r.a, r.b));
        return r;
    },
    reset(s) { const g = graphOf(s.fig); if (!g) return { none: true }; page.guard(() => g.resetZoom()); }
};
function graphOf(fig) { const d = plotDiv(fig); return d && d.dygraph_; }
function linePlot(div) {
    const g = div.dygraph_;
    if (!g) return null;
    const o = Object.assign({}, g.attrs_);
    delete o.drawCallback;
    return { x: g.xAxisRange(), y: g.yAxisRange(), rows: g.rawData_, width: g.width_, height: g.height_, options: o };
}
const trace = [];
for (const s of session.steps) {
    const need = s.fig && plotDiv(s.fig);
    let res = null;
    if (s.fig && (!need || !(need.dygraph_ || svgsOf(need).length))) res = { skipped: true };
    else page.guard(() => { res = OPS[s.op](s) || {}; });
    page.clock.advance(s.dt || 0, page.guard);
    const plots = {};
    for (const d of page.document.querySelectorAll(".eventplot")) page.guard(() => { plots[d.id] = { event: eventPlot(d) }; });
    for (const d of page.document.querySelectorAll(".ilineplot")) page.guard(() => { plots[d.id] = { line: linePlot(d) }; });
    trace.push({ res, plots, errors: page.errors, missing: page.missing, console: page.consoleErrors, pending: page.clock.queue.length });
    page.errors = [];
    page.missing = [];
    page.consoleErrors = [];
    if (process.env.DST_JS_DEBUG) fs.writeSync(2, JSON.stringify(trace[trace.length - 1]).slice(0, 3000) + "\n");
}
if (unsupported.length) trace.push({ unsupported });
// JSON has no NaN or infinities
process.stdout.write(JSON.stringify(trace, (k, v) => typeof v === "number" && !isFinite(v) ? String(v) : v === undefined ? null : v));
