// A small document object model: enough of a browser to run a plain page and look at it
"use strict";

const VOID = new Set(["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"]);
const RAW = new Set(["script", "style", "textarea", "title"]);
const ENTITIES = { amp: "&", lt: "<", gt: ">", quot: "\"", apos: "'", nbsp: "\u00a0" };

function decode(text) {
    return text.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);?/gi, (all, e) => {
        if (e[0] === "#") {
            return String.fromCodePoint(e[1] === "x" || e[1] === "X" ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10));
        }
        return e in ENTITIES ? ENTITIES[e] : all;
    });
}

function escape(text) {
    return text.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
}

class FakeEvent {
    constructor(type, init) {
        Object.assign(this, init || {});
        this.type = type;
        this.defaultPrevented = false;
        this.stopped = false;
    }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this.stopped = true; }
    stopImmediatePropagation() { this.stopped = true; }
}

// Handlers throw into `target.errors`, as in a browser they only reach the console
class Target {
    constructor() { this._listeners = {}; }
    addEventListener(type, f, options) {
        const list = this._listeners[type] || (this._listeners[type] = []);
        if (!list.some((l) => l.f === f)) {
            list.push({ f, once: !!(options && options.once) });
        }
    }
    removeEventListener(type, f) {
        this._listeners[type] = (this._listeners[type] || []).filter((l) => l.f !== f);
    }
    _fire(ev) {
        ev.currentTarget = this;
        for (const l of [...(this._listeners[ev.type] || [])]) {
            if (l.once) {
                this.removeEventListener(ev.type, l.f);
            }
            try {
                if (typeof l.f === "function") l.f.call(this, ev); else l.f.handleEvent(ev);
            } catch (e) {
                this._report(e);
            }
        }
        const on = this["on" + ev.type];
        if (typeof on === "function") {
            try {
                on.call(this, ev);
            } catch (e) {
                this._report(e);
            }
        }
    }
    _report(e) { Target.report(e); }
    dispatchEvent(ev) {
        ev.target = ev.target || this;
        let at = this;
        while (at) {
            at._fire(ev);
            if (ev.stopped || ev.bubbles === false) break;
            at = at.parentNode;
        }
        return !ev.defaultPrevented;
    }
}

class Node extends Target {
    constructor(document) {
        super();
        this.ownerDocument = document;
        this.parentNode = null;
        this.childNodes = [];
    }
    get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get nextSibling() { return this._sibling(1); }
    get previousSibling() { return this._sibling(-1); }
    _sibling(d) {
        if (!this.parentNode) return null;
        const list = this.parentNode.childNodes;
        return list[list.indexOf(this) + d] || null;
    }
    get isConnected() {
        let at = this;
        while (at.parentNode) at = at.parentNode;
        return at === this.ownerDocument;
    }
    _nodes(args) {
        const out = [];
        for (const a of args) {
            if (a instanceof Fragment) out.push(...a.childNodes);
            else out.push(a instanceof Node ? a : new Text(this.ownerDocument, String(a)));
        }
        return out;
    }
    _insert(at, args) {
        for (const n of this._nodes(args)) {
            if (!(n instanceof Node) || n === this || n.contains(this)) {
                throw new TypeError("not a node which can be put here");
            }
            const before = at;
            if (n.parentNode) n.remove();
            const i = before === null ? this.childNodes.length : this.childNodes.indexOf(before);
            this.childNodes.splice(i, 0, n);
            n.parentNode = this;
        }
    }
    contains(n) {
        while (n) {
            if (n === this) return true;
            n = n.parentNode;
        }
        return false;
    }
    appendChild(n) {
        if (!(n instanceof Node)) throw new TypeError("appendChild: not a node");
        this._insert(null, [n]);
        return n;
    }
    insertBefore(n, before) {
        this._insert(before || null, [n]);
        return n;
    }
    append(...args) { this._insert(null, args); }
    prepend(...args) { this._insert(this.firstChild, args); }
    before(...args) { this.parentNode._insert(this, args); }
    after(...args) { this.parentNode._insert(this.nextSibling, args); }
    removeChild(n) {
        if (n.parentNode !== this) throw new Error("removeChild: not a child");
        n.remove();
        return n;
    }
    replaceChild(n, old) {
        this.insertBefore(n, old);
        old.remove();
        return old;
    }
    replaceChildren(...args) {
        for (const n of [...this.childNodes]) n.remove();
        this._insert(null, args);
    }
    replaceWith(...args) {
        this.before(...args);
        this.remove();
    }
    remove() {
        if (this.parentNode) {
            const list = this.parentNode.childNodes;
            list.splice(list.indexOf(this), 1);
            this.parentNode = null;
        }
    }
    hasChildNodes() { return this.childNodes.length > 0; }
    get children() { return this.childNodes.filter((n) => n instanceof Element); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { return this.children[this.children.length - 1] || null; }
    get textContent() { return this.childNodes.map((n) => n.textContent).join(""); }
    set textContent(t) {
        this.replaceChildren();
        if (t !== null && String(t) !== "") this.append(new Text(this.ownerDocument, String(t)));
    }
    // The elements inside, in the order of the document
    _all(out = []) {
        for (const n of this.childNodes) {
            if (n instanceof Element) out.push(n);
            if (n.childNodes.length) n._all(out);
        }
        return out;
    }
    _find(f) {
        for (const n of this.childNodes) {
            if (n instanceof Element && f(n)) return n;
            const inside = n.childNodes.length ? n._find(f) : null;
            if (inside) return inside;
        }
        return null;
    }
    querySelectorAll(selector) {
        const list = String(selector).split(",").map((s) => s.trim().split(/\s*>\s*|\s+/).map(simple));
        return this._all().filter((e) => list.some((s) => matches(e, s)));
    }
    querySelector(selector) { return this.querySelectorAll(selector)[0] || null; }
    getElementsByTagName(name) { return this._all().filter((e) => e.localName === name.toLowerCase()); }
    getElementsByClassName(name) { return this._all().filter((e) => e.classList.contains(name)); }
}

// tag, #id, .class, [attr], [attr=value] and :checked, in any combination
function simple(s) {
    const parts = s.match(/^[\w*-]+|[#.][\w-]+|\[[^\]]*\]|:checked/g);
    if (!parts || parts.join("") !== s) throw new Error("HARNESS: selector " + s);
    return parts;
}

function matches_one(e, parts) {
    return parts.every((p) => {
        if (p[0] === "#") return e.id === p.slice(1);
        if (p[0] === ".") return e.classList.contains(p.slice(1));
        if (p === ":checked") return e.checked || e.selected;
        if (p[0] === "[") {
            const m = p.match(/^\[([\w-]+)(?:=["']?(.*?)["']?)?\]$/);
            return e.hasAttribute(m[1]) && (m[2] === undefined || e.getAttribute(m[1]) === m[2]);
        }
        return p === "*" || e.localName === p.toLowerCase();
    });
}

function matches(e, path) {
    if (!matches_one(e, path[path.length - 1])) return false;
    let i = path.length - 2;
    for (let at = e.parentElement; i >= 0 && at; at = at.parentElement) {
        if (matches_one(at, path[i])) i--;
    }
    return i < 0;
}

class Text extends Node {
    constructor(document, data) {
        super(document);
        this.data = data;
    }
    get nodeType() { return 3; }
    get textContent() { return this.data; }
    set textContent(t) { this.data = String(t); }
    get nodeValue() { return this.data; }
    set nodeValue(t) { this.data = String(t); }
    get outerHTML() { return escape(this.data); }
}

class Fragment extends Node {
    get nodeType() { return 11; }
}

class Element extends Node {
    constructor(document, name) {
        super(document);
        this.localName = name.toLowerCase();
        this._attrs = {};
        this._value = null;
        this._checked = null;
        this._selected = null;
        this.style = { setProperty(k, v) { this[k] = v; }, getPropertyValue(k) { return this[k] || ""; }, removeProperty(k) { delete this[k]; } };
        const self = this;
        this.classList = {
            _get: () => (self._attrs.class || "").split(/\s+/).filter((c) => c),
            contains(c) { return this._get().includes(c); },
            add(...cs) { self._attrs.class = [...new Set([...this._get(), ...cs])].join(" "); },
            remove(...cs) { self._attrs.class = this._get().filter((c) => !cs.includes(c)).join(" "); },
            toggle(c, force) {
                const on = force === undefined ? !this.contains(c) : force;
                if (on) this.add(c); else this.remove(c);
                return on;
            },
        };
        this.dataset = new Proxy({}, {
            get: (_, k) => self._attrs["data-" + String(k).replace(/[A-Z]/g, (c) => "-" + c.toLowerCase())],
            set: (_, k, v) => { self._attrs["data-" + String(k).replace(/[A-Z]/g, (c) => "-" + c.toLowerCase())] = String(v); return true; },
        });
    }
    get nodeType() { return 1; }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    getAttribute(k) { return k in this._attrs ? this._attrs[k] : null; }
    setAttribute(k, v) { this._attrs[k.toLowerCase()] = String(v); }
    removeAttribute(k) { delete this._attrs[k]; }
    hasAttribute(k) { return k in this._attrs; }
    toggleAttribute(k, force) {
        const on = force === undefined ? !this.hasAttribute(k) : force;
        if (on) this.setAttribute(k, ""); else this.removeAttribute(k);
        return on;
    }
    matches(s) { return s.split(",").some((t) => matches(this, t.trim().split(/\s+/).map(simple))); }
    closest(s) {
        let at = this;
        while (at && !at.matches(s)) at = at.parentElement;
        return at;
    }
    get innerText() { return this.textContent; }
    set innerText(t) { this.textContent = t; }
    get innerHTML() {
        return this.childNodes.map((n) => n.outerHTML).join("");
    }
    get outerHTML() {
        const attrs = Object.entries(this._attrs).map(([k, v]) => ` ${k}="${escape(v).replace(/"/g, "&quot;")}"`).join("");
        return `<${this.localName}${attrs}>` + (VOID.has(this.localName) ? "" : `${this.innerHTML}</${this.localName}>`);
    }
    set innerHTML(html) {
        this.replaceChildren();
        parse(this.ownerDocument, this, String(html));
    }
    insertAdjacentHTML(where, html) {
        const f = new Fragment(this.ownerDocument);
        parse(this.ownerDocument, f, String(html));
        this._adjacent(where, f);
    }
    insertAdjacentText(where, text) { this._adjacent(where, String(text)); }
    insertAdjacentElement(where, e) { this._adjacent(where, e); return e; }
    _adjacent(where, x) {
        ({ beforebegin: () => this.before(x), afterbegin: () => this.prepend(x), beforeend: () => this.append(x), afterend: () => this.after(x) })[where.toLowerCase()]();
    }
    get options() { return this.querySelectorAll("option"); }
    get selectedIndex() { return this.options.findIndex((o) => o === this._option()); }
    set selectedIndex(i) { this.options.forEach((o, j) => { o._selected = i === j; }); }
    get selectedOptions() { const o = this._option(); return o ? [o] : []; }
    add(o) { this.append(o); }
    _option() {
        const chosen = this.options.filter((o) => o.selected);
        return chosen[chosen.length - 1] || (this._none ? null : this.options[0]) || null;
    }
    get selected() { return this._selected !== null ? this._selected : this.hasAttribute("selected"); }
    set selected(s) {
        const select = this.closest("select");
        if (s && select) {
            for (const o of select.options) o._selected = false;
        }
        this._selected = !!s;
    }
    get value() {
        switch (this.localName) {
            case "select": { const o = this._option(); return o ? o.value : ""; }
            case "option": return this.hasAttribute("value") ? this._attrs.value : this.textContent.trim().replace(/\s+/g, " ");
            case "textarea": return this._value !== null ? this._value : this.textContent;
            default: return this._value !== null ? this._value : this._attrs.value || "";
        }
    }
    set value(v) {
        v = String(v);
        if (this.localName === "select") {
            const o = this.options.find((o) => o.value === v);
            for (const p of this.options) p._selected = p === o;
            this._none = !o;
        } else if (this.localName === "option") {
            this._attrs.value = v;
        } else if (this.localName === "textarea") {
            this._value = v.replace(/\r\n?/g, "\n");
        } else if (this.localName === "input") {
            this._value = v.replace(/[\r\n]/g, "");
        } else {
            this._value = v;
        }
    }
    get text() { return this.textContent; }
    set text(t) { this.textContent = t; }
    get label() { return this.getAttribute("label") || this.textContent; }
    get checked() { return this._checked !== null ? this._checked : this.hasAttribute("checked"); }
    set checked(c) { this._checked = !!c; }
    get open() { return this.hasAttribute("open"); }
    set open(o) { this.toggleAttribute("open", !!o); }
    get disabled() { return this.hasAttribute("disabled"); }
    set disabled(o) { this.toggleAttribute("disabled", !!o); }
    get hidden() { return this.hasAttribute("hidden"); }
    set hidden(o) { this.toggleAttribute("hidden", !!o); }
    get className() { return this._attrs.class || ""; }
    set className(c) { this._attrs.class = String(c); }
    focus() {}
    blur() {}
    select() {}
    scrollIntoView() {}
    setSelectionRange() {}
    click() {
        if (this.disabled) return;
        const box = this.localName === "input" && this.type === "checkbox";
        const old = this.checked;
        if (box) this.checked = !old;
        if (!this.dispatchEvent(new FakeEvent("click", { bubbles: true, button: 0 }))) {
            if (box) this.checked = old;
            return;
        }
        if (box) {
            this.dispatchEvent(new FakeEvent("input", { bubbles: true }));
            this.dispatchEvent(new FakeEvent("change", { bubbles: true }));
        }
        const a = this.closest("a");
        if (a && a.hasAttribute("href") && a.href.startsWith("#")) {
            this.ownerDocument._location.hash = a.href;
        }
    }
}

for (const name of ["id", "href", "title", "target", "type", "name", "htmlFor", "placeholder", "rel", "src", "alt"]) {
    const attr = name === "htmlFor" ? "for" : name;
    Object.defineProperty(Element.prototype, name, {
        get() { return this._attrs[attr] || ""; },
        set(v) { this._attrs[attr] = String(v); },
    });
}

// Reads HTML into `root`
function parse(document, root, html) {
    const stack = [root];
    const top = () => stack[stack.length - 1];
    let at = 0;
    while (at < html.length) {
        if (html.startsWith("<!--", at)) {
            const end = html.indexOf("-->", at);
            at = end < 0 ? html.length : end + 3;
            continue;
        }
        if (/^<[!?]/.test(html.slice(at, at + 2))) {
            at = html.indexOf(">", at) + 1 || html.length;
            continue;
        }
        const close = /^<\/([a-z][\w-]*)[^>]*>/i.exec(html.slice(at, at + 200));
        if (close) {
            at += close[0].length;
            const name = close[1].toLowerCase();
            const i = stack.findLastIndex((e) => e.localName === name);
            if (i > 0) stack.length = i;
            continue;
        }
        const open = /^<([a-z][\w-]*)/i.exec(html.slice(at, at + 40));
        if (open) {
            at += open[0].length;
            const e = new Element(document, open[1]);
            const attr = /\s*(?:\/|([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]*)))?)/y;
            for (;;) {
                attr.lastIndex = at;
                const m = attr.exec(html);
                if (!m || m[0] === "") break;
                at = attr.lastIndex;
                if (m[1]) e._attrs[m[1].toLowerCase()] = decode(m[2] ?? m[3] ?? m[4] ?? "");
            }
            at = html.indexOf(">", at) + 1 || html.length;
            if (e.localName === "option" && top().localName === "option") stack.pop();
            if (e.localName === "li" && top().localName === "li") stack.pop();
            top().appendChild(e);
            if (RAW.has(e.localName)) {
                const rest = html.slice(at);
                const end = rest.search(new RegExp("</" + e.localName, "i"));
                let text = end < 0 ? rest : rest.slice(0, end);
                at += text.length;
                if (e.localName === "textarea" || e.localName === "title") text = decode(text);
                if (text) e.append(new Text(document, text));
                stack.push(e);
            } else if (!VOID.has(e.localName)) {
                stack.push(e);
            }
            continue;
        }
        let end = html.indexOf("<", at + 1);
        if (end < 0) end = html.length;
        top().append(new Text(document, decode(html.slice(at, end))));
        at = end;
    }
}

class Document extends Node {
    constructor(html, location) {
        super(null);
        this.ownerDocument = this;
        this._location = location;
        this.readyState = "loading";
        this.title = "";
        parse(this, this, html);
    }
    get location() { return this._location; }
    set location(v) { this._location.href = v; }
    get documentElement() { return this.querySelector("html"); }
    get body() { return this.querySelector("body"); }
    get head() { return this.querySelector("head"); }
    get activeElement() { return this.body; }
    get forms() { return this.querySelectorAll("form"); }
    getElementById(id) { return this._find((e) => e._attrs.id === id); }
    createElement(name) { return new Element(this, name); }
    createTextNode(t) { return new Text(this, String(t)); }
    createDocumentFragment() { return new Fragment(this); }
    createEvent() { return new FakeEvent(""); }
    execCommand() { return false; }
}

module.exports = { Document, Element, Node, Text, Fragment, Target, FakeEvent };
