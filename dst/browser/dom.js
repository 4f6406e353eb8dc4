// A small browser: document, jQuery, require.js.  Time and every event come
// from the session that is replayed (see session.js); nothing is asynchronous
// but through `Clock`.
"use strict";

// What a real browser or library has and this one lacks: a page that asks for
// it cannot be judged, see session.js.
const unsupported = [];
function lacks(obj, what, names) {
    for (const n of names.split(/\s+/))
        if (n && !(n in obj)) Object.defineProperty(obj, n, {
            configurable: true, enumerable: false,
            get() { unsupported.push(what + n); return undefined; },
            set(v) { Object.defineProperty(this, n, { value: v, writable: true, configurable: true, enumerable: true }); }
        });
    return obj;
}

class Clock {
    constructor() { this.now = 0; this.queue = []; this.seq = 0; }
    after(ms, fn) {
        const t = { at: this.now + Math.max(0, +ms || 0), seq: this.seq++, fn };
        this.queue.push(t);
        return t.seq + 1;
    }
    cancel(id) { this.queue = this.queue.filter(t => t.seq + 1 !== id); }
    advance(ms, guard) {
        const end = this.now + ms;
        for (let n = 0; n < 100000; n++) {
            let best = null;
            for (const t of this.queue)
                if (t.at <= end && (!best || t.at < best.at || (t.at === best.at && t.seq < best.seq))) best = t;
            if (!best) break;
            this.queue = this.queue.filter(t => t !== best);
            this.now = Math.max(this.now, best.at);
            guard(best.fn);
        }
        this.now = end;
    }
}

const VOID = { img: 1, br: 1, hr: 1, input: 1, meta: 1, link: 1 };

class Node {
    constructor(doc, tag) {
        this.ownerDocument = doc;
        this.tagName = tag;
        this.nodeName = tag;
        this.nodeType = tag === "#text" ? 3 : 1;
        this.attrs = {};
        this.style_ = {};
        this.childNodes = [];
        this.parentNode = null;
        this.listeners = [];
        this.data_ = "";
        const self = this;
        this.style = new Proxy(this.style_, {
            get(o, k) {
                if (k === "setProperty") return (n, v) => { if (v === null || v === "") delete o[n]; else o[n] = String(v); };
                if (k === "removeProperty") return n => { delete o[n]; };
                if (k === "getPropertyValue") return n => o[n] === undefined ? "" : o[n];
                return o[k] === undefined ? "" : o[k];
            },
            set(o, k, v) { o[k] = String(v); return true; }
        });
        this.classList = {
            contains: c => self.classes().includes(c),
            add: c => { if (!self.classes().includes(c)) self.setAttribute("class", self.classes().concat(c).join(" ")); },
            remove: c => self.setAttribute("class", self.classes().filter(x => x !== c).join(" "))
        };
    }
    classes() { return (this.attrs["class"] || "").split(/\s+/).filter(x => x); }
    get id() { return this.attrs.id || ""; }
    set id(v) { this.attrs.id = String(v); }
    get className() { return this.attrs["class"] || ""; }
    set className(v) { this.attrs["class"] = String(v); }
    get children() { return this.childNodes.filter(c => c.nodeType === 1); }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get nextSibling() {
        const s = this.parentNode ? this.parentNode.childNodes : [];
        return s[s.indexOf(this) + 1] || null;
    }
    get parentElement() { return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null; }
    get ownerSVGElement() {
        for (let p = this.parentNode; p; p = p.parentNode) if (p.tagName === "svg") return p;
        return null;
    }
    getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
    setAttribute(n, v) { this.attrs[n] = String(v); }
    removeAttribute(n) { delete this.attrs[n]; }
    hasAttribute(n) { return n in this.attrs; }
    setAttributeNS(_, n, v) { this.setAttribute(n, v); }
    getAttributeNS(_, n) { return this.getAttribute(n); }
    removeAttributeNS(_, n) { this.removeAttribute(n); }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    appendChild(c) { return this.insertBefore(c, null); }
    insertBefore(c, ref) {
        if (ref && ref.parentNode !== this) throw new Error("NotFoundError: the node before which to insert is not a child");
        if (c.contains(this)) throw new Error("HierarchyRequestError");
        if (c.parentNode) c.parentNode.removeChild(c);
        const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
        this.childNodes.splice(i, 0, c);
        c.parentNode = this;
        return c;
    }
    removeChild(c) {
        const i = this.childNodes.indexOf(c);
        if (i < 0) throw new Error("NotFoundError: the node to be removed is not a child");
        this.childNodes.splice(i, 1);
        c.parentNode = null;
        return c;
    }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    get textContent() { return this.nodeType === 3 ? this.data_ : this.childNodes.map(c => c.textContent).join(""); }
    set textContent(v) {
        if (this.nodeType === 3) { this.data_ = String(v); return; }
        for (const c of this.childNodes.slice()) this.removeChild(c);
        if (v !== "" && v !== null && v !== undefined) this.appendChild(this.ownerDocument.createTextNode(v));
    }
    set innerHTML(v) {
        for (const c of this.childNodes.slice()) this.removeChild(c);
        for (const c of parseHTML(this.ownerDocument, String(v))) this.appendChild(c);
    }
    get innerHTML() { return this.childNodes.map(serialise).join(""); }
    walk(fn) { for (const c of this.childNodes.slice()) { if (c.nodeType === 1) fn(c); c.walk(fn); } }
    querySelectorAll(sel) {
        const m = matcher(sel), out = [];
        this.walk(n => { if (m(n)) out.push(n); });
        return out;
    }
    querySelector(sel) { return this.querySelectorAll(sel)[0] || null; }
    matches(sel) { return matcher(sel)(this); }
    closest(sel) {
        const m = matcher(sel);
        for (let p = this; p && p.nodeType === 1; p = p.parentNode) if (m(p)) return p;
        return null;
    }
    addEventListener(type, fn) { this.listeners.push({ type, fn }); }
    removeEventListener(type, fn) { this.listeners = this.listeners.filter(l => l.type !== type || l.fn !== fn); }
    dispatchEvent(e) {
        for (const l of this.listeners.slice())
            if (l.type === e.type && this.listeners.includes(l)) l.fn.call(this, e);
    }
    createSVGPoint() { return { x: 0, y: 0, matrixTransform() { return this; } }; }
    layoutWidth() {
        const page = this.ownerDocument.page;
        if (!this.ownerDocument.documentElement.contains(this)) return 0;
        return page.width;
    }
    get clientWidth() { return this.layoutWidth(); }
    get offsetWidth() { return this.layoutWidth(); }
    // where the origin of this element's coordinates is on the page
    origin() {
        let x = 0, y = 0;
        for (let p = this; p && p.nodeType === 1; p = p.parentNode) {
            const t = /translate\(\s*([-+.\de]+)[\s,]+([-+.\de]+)\s*\)/.exec(p.attrs.transform || "");
            if (t) { x += +t[1]; y += +t[2]; }
            if (p.tagName === "svg" && !p.ownerSVGElement) { x += 11; y += 1000 + 500 * p.ownerDocument.svgs.indexOf(p); break; }
        }
        return [x, y];
    }
}

function matcher(sel) {
    const alts = String(sel).split(",").map(s => {
        const parts = s.trim().split(/\s+/).map(one => {
            const m = /^([\w-]+|\*)?((?:[.#][\w:-]+)*)$/.exec(one);
            if (!m) { unsupported.push("selector " + sel); throw new Error("SyntaxError: selector " + sel); }
            const rest = m[2].match(/[.#][\w:-]+/g) || [];
            return n => n.nodeType === 1 && (!m[1] || m[1] === "*" || n.tagName === m[1].toLowerCase() || n.tagName === m[1]) &&
                rest.every(r => r[0] === "." ? n.classes().includes(r.slice(1)) : n.id === r.slice(1));
        });
        return n => {
            let i = parts.length - 1;
            if (!parts[i](n)) return false;
            for (let p = n.parentNode; i > 0; p = p.parentNode) {
                if (!p || p.nodeType !== 1) return false;
                if (parts[i - 1](p)) i--;
            }
            return true;
        };
    });
    return n => alts.some(a => a(n));
}

const ENT = { amp: "&", lt: "<", gt: ">", quot: '"', times: "\u00d7", nbsp: "\u00a0", "#39": "'", "#x27": "'" };
const unescape_ = s => s.replace(/&(#?\w+);/g, (m, n) => n in ENT ? ENT[n] : /^#\d+$/.test(n) ? String.fromCodePoint(+n.slice(1)) : m);
const escape_ = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;");

function serialise(n) {
    if (n.nodeType === 3) return n.raw ? n.data_ : escape_(n.data_);
    const a = Object.keys(n.attrs).map(k => ' ' + k + '="' + n.attrs[k].replace(/&/g, "&amp;").replace(/"/g, "&quot;") + '"').join("");
    return "<" + n.tagName + a + ">" + (VOID[n.tagName] ? "" : n.childNodes.map(serialise).join("") + "</" + n.tagName + ">");
}

function parseHTML(doc, html) {
    const top = [], stack = [];
    const add = n => stack.length ? stack[stack.length - 1].appendChild(n) : top.push(n);
    let i = 0;
    const text = (s, raw) => {
        if (!s) return;
        const t = doc.createTextNode(raw ? s : unescape_(s));
        t.raw = raw;
        add(t);
    };
    while (i < html.length) {
        if (html.startsWith("<!--", i)) {
            const e = html.indexOf("-->", i + 4);
            i = e < 0 ? html.length : e + 3;
            continue;
        }
        const m = /^<(\/?)([a-zA-Z][\w:-]*)((?:\s+[^\s"'<>\/=]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'=<>`]+))?|\s*["'+]+(?=\s|>))*)\s*(\/?)>/.exec(html.slice(i, i + 200000));
        if (!m) {
            let e = html.indexOf("<", i + 1);
            if (e < 0) e = html.length;
            text(html.slice(i, e));
            i = e;
            continue;
        }
        i += m[0].length;
        const tag = m[2].toLowerCase();
        if (m[1]) {
            for (let k = stack.length - 1; k >= 0; k--) if (stack[k].tagName === tag) { stack.length = k; break; }
            continue;
        }
        const n = doc.createElement(tag);
        const re = /([^\s"'<>\/=+]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'=<>`]+)))?/g;
        let a;
        while ((a = re.exec(m[3]))) n.attrs[a[1]] = unescape_(a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] || "");
        add(n);
        if (VOID[tag] || m[4]) continue;
        if (tag === "script" || tag === "style") {
            const e = html.slice(i).search(new RegExp("</" + tag + "[\\s>/]", "i"));
            const end = e < 0 ? html.length : i + e;
            stack.push(n);
            text(html.slice(i, end), true);
            stack.pop();
            i = end;
            const c = html.indexOf(">", i);
            i = c < 0 ? html.length : c + 1;
            continue;
        }
        stack.push(n);
    }
    return top;
}

lacks(Node.prototype, "element.", `animate append after before attachShadow attributes baseURI blur click cloneNode compareDocumentPosition
    childElementCount clientHeight clientLeft clientTop dataset firstElementChild focus getBBox getBoundingClientRect getClientRects getCTM
    getComputedTextLength getElementsByClassName getElementsByTagName getRootNode getScreenCTM getTotalLength hasAttributes hasChildNodes hidden
    innerText insertAdjacentElement insertAdjacentHTML insertAdjacentText isConnected isEqualNode isSameNode lastElementChild localName
    namespaceURI nextElementSibling nodeValue normalize offsetHeight offsetLeft offsetParent offsetTop outerHTML prepend previousElementSibling
    previousSibling replaceChild replaceChildren replaceWith scrollIntoView scrollLeft scrollTop scrollWidth scrollHeight tabIndex title
    toggleAttribute transform viewBox viewportElement`);

class Document {
    constructor(page) {
        this.page = page;
        this.svgs = [];
        this.nodeType = 9;
        this.documentElement = new Node(this, "html");
        this.documentElement.parentNode = this;
        this.body = new Node(this, "body");
        this.documentElement.appendChild(this.body);
        lacks(this, "document.", `activeElement adoptNode all cookie createComment createDocumentFragment createEvent createRange createTextNode
            designMode elementFromPoint evaluate execCommand forms getElementsByName getElementsByTagName head hidden images importNode
            location readyState removeEventListener scripts title visibilityState write`);
    }
    createElement(t) { const n = new Node(this, String(t).replace(/^svg:/, "")); if (n.tagName === "svg") this.svgs.push(n); return n; }
    createElementNS(_, t) { return this.createElement(t); }
    createTextNode(s) { const n = new Node(this, "#text"); n.data_ = String(s); return n; }
    getElementById(id) {
        let r = null;
        this.documentElement.walk(n => { if (!r && n.id === String(id)) r = n; });
        return r;
    }
    getElementsByClassName(c) { return this.querySelectorAll("." + c); }
    querySelectorAll(s) { return this.documentElement.querySelectorAll(s); }
    querySelector(s) { return this.querySelectorAll(s)[0] || null; }
    addEventListener() { }
}

// ------------------------------------------------------------------ jQuery
function jQuery(page) {
    const doc = page.document;
    class JQ {
        constructor(els) { this.length = els.length; els.forEach((e, i) => { this[i] = e; }); }
        els() { return Array.prototype.slice.call(this, 0, this.length); }
        get(i) { return i === undefined ? this.els() : this[i]; }
        each(fn) { this.els().forEach((e, i) => fn.call(e, i, e)); return this; }
        append(...what) {
            this.els().forEach(e => what.forEach(w => {
                const ns = w instanceof JQ ? w.els() : typeof w === "string" ? parseHTML(doc, w) : [w];
                ns.forEach(n => e.appendChild(n));
            }));
            return this;
        }
        appendTo(t) { $(t).append(this); return this; }
        empty() { this.els().forEach(e => { e.innerHTML = ""; }); return this; }
        remove() { this.els().forEach(e => e.remove()); return this; }
        width() {
            if (!this.length) return undefined;
            return this[0] === page.window ? page.window.innerWidth : this[0].layoutWidth();
        }
        height() { return this.length ? 100 : undefined; }
        closest(s) { return new JQ(this.els().map(e => e.closest(s)).filter((e, i, a) => e && a.indexOf(e) === i)); }
        find(s) { return new JQ([].concat(...this.els().map(e => e.querySelectorAll(s)))); }
        parent() { return new JQ(this.els().map(e => e.parentNode).filter(e => e)); }
        children() { return new JQ([].concat(...this.els().map(e => e.children))); }
        attr(n, v) {
            if (v === undefined && typeof n === "string") return this.length ? (this[0].getAttribute(n) === null ? undefined : this[0].getAttribute(n)) : undefined;
            if (typeof n === "object") for (const k in n) this.attr(k, n[k]);
            else this.els().forEach(e => e.setAttribute(n, v));
            return this;
        }
        css(n, v) {
            if (typeof n === "object") { for (const k in n) this.css(k, n[k]); return this; }
            if (v === undefined) return this.length ? this[0].style[n] : undefined;
            this.els().forEach(e => { e.style[n] = v; });
            return this;
        }
        addClass(c) { c.split(/\s+/).forEach(x => this.els().forEach(e => e.classList.add(x))); return this; }
        removeClass(c) { c.split(/\s+/).forEach(x => this.els().forEach(e => e.classList.remove(x))); return this; }
        hasClass(c) { return this.els().some(e => e.classList.contains(c)); }
        html(v) {
            if (v === undefined) return this.length ? this[0].innerHTML : undefined;
            this.els().forEach(e => { e.innerHTML = v; });
            return this;
        }
        text(v) {
            if (v === undefined) return this.els().map(e => e.textContent).join("");
            this.els().forEach(e => { e.textContent = v; });
            return this;
        }
        on(types, fn) {
            String(types).split(/\s+/).forEach(t => {
                const [type, ns] = t.split(/\.(.*)/);
                this.els().forEach(e => e.listeners.push({ type, ns: "jq." + ns, fn }));
            });
            return this;
        }
        off(types) {
            String(types).split(/\s+/).forEach(t => {
                const [type, ns] = t.split(/\.(.*)/);
                this.els().forEach(e => {
                    e.listeners = e.listeners.filter(l => !(String(l.ns).startsWith("jq.") && (!type || l.type === type) && (!ns || l.ns === "jq." + ns)));
                });
            });
            return this;
        }
        bind(t, fn) { return this.on(t, fn); }
        unbind(t) { return this.off(t); }
        resize(fn) { return this.on("resize", fn); }
        modal() { page.dialogs.push(this[0]); return this; }
        show() { return this; }
        hide() { return this; }
        is(s) { return this.els().some(e => e.matches(s)); }
    }
    const $ = function (what) {
        if (what instanceof JQ) return what;
        if (what === undefined || what === null) return new JQ([]);
        if (typeof what === "function") { what(); return new JQ([]); }
        if (typeof what === "string") {
            if (what.trim()[0] === "<") return new JQ(parseHTML(doc, what));
            return new JQ(doc.querySelectorAll(what));
        }
        return new JQ([what]);
    };
    $.each = function (o, fn) {
        if (Array.isArray(o) || o instanceof JQ) for (let i = 0; i < o.length; i++) { if (fn.call(o[i], i, o[i]) === false) break; }
        else for (const k in o) if (fn.call(o[k], k, o[k]) === false) break;
        return o;
    };
    $.extend = (...a) => Object.assign(...a);
    $.fn = JQ.prototype;
    lacks(JQ.prototype, "jQuery.", `add addBack after ajaxStart andSelf animate before blur change clearQueue click clone contents contextmenu
        data dblclick delay delegate dequeue detach end eq fadeIn fadeOut fadeTo fadeToggle filter finish first focus focusin focusout has hover
        index innerHeight innerWidth insertAfter insertBefore keydown keypress keyup last live load map mousedown mouseenter mouseleave mousemove
        mouseout mouseover mouseup next nextAll nextUntil not offset offsetParent one outerHeight outerWidth parents parentsUntil position prepend
        prependTo prev prevAll promise prop queue ready removeAttr removeData removeProp replaceAll replaceWith scroll scrollLeft scrollTop
        select serialize siblings slice slideDown slideUp slideToggle stop submit toArray toggle toggleClass trigger triggerHandler undelegate
        unwrap val wrap wrapAll wrapInner`);
    lacks($, "$.", `ajax get getJSON getScript post proxy map grep merge makeArray inArray isArray isFunction isNumeric isEmptyObject isPlainObject
        contains data now noop parseHTML parseJSON parseXML queue removeData support trim type unique uniqueSort when Deferred Callbacks Event
        cssHooks fx globalEval holdReady param noConflict`);
    return $;
}

// -------------------------------------------------------------- require.js
// One context, as in a notebook: configurations are merged, a module is
// fetched once, after what it depends on, and takes as long as the session says.
function makeRequire(page, fetch, run, delay) {
    const paths = {}, shim = {}, modules = {};
    function load(name, done) {
        if (name === "require" || name === "exports" || name === "module") return done(req);
        const m = modules[name] || (modules[name] = { state: "new", waiting: [] });
        if (m.state === "done") return done(m.value);
        m.waiting.push(done);
        if (m.state !== "new") return;
        m.state = "loading";
        const s = shim[name] || {};
        const deps = Array.isArray(s) ? s : s.deps || [];
        all(deps, () => {
            const url = (paths[name] || name) + ".js";
            page.clock.after(delay(name), () => {
                const text = fetch(url);
                if (text === null) {
                    page.missing.push(url);
                    m.state = "failed";
                    throw new Error("Script error for: " + name + " (" + url + ")");
                }
                run(text, url);
                m.value = !Array.isArray(s) && s.exports ? page.window[s.exports] : undefined;
                m.state = "done";
                const w = m.waiting;
                m.waiting = [];
                for (const fn of w) page.guard(() => fn(m.value));
            });
        });
    }
    function all(deps, done) {
        let left = deps.length;
        const vals = [];
        if (!left) return done(vals);
        deps.forEach((d, i) => load(d, v => { vals[i] = v; if (--left === 0) done(vals); }));
    }
    function req(deps, cb) {
        if (typeof deps === "string") return modules[deps] && modules[deps].value;
        // require.js calls back on a later tick
        page.clock.after(4, () => all(deps, vals => { if (cb) cb.apply(page.window, vals); }));
        return req;
    }
    req.config = req;
    req.config = function (c) {
        // a path of a module that was fetched already changes nothing
        Object.assign(paths, c.paths || {});
        Object.assign(shim, c.shim || {});
        return req;
    };
    return req;
}

module.exports = { unsupported, lacks, Clock, Node, Document, jQuery, makeRequire, parseHTML, unescape_ };
