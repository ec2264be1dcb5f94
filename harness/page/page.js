// Plays sessions with the page: one JSON array of steps per line, answered by one line with what
// could be seen at each "look". The server's side of the websockets is played, too, unless the
// first step says {"server": "127.0.0.1:PORT"}: then everything comes from that server.
"use strict";
const fs = require("fs");
const vm = require("vm");
const readline = require("readline");
const { Document, Element, Node, Text, Fragment, Target, FakeEvent } = require("./dom.js");

const PAGE = process.argv[2];
const LATER = setImmediate;

class Page {
    constructor(html, host, hash, scripts, sockets) {
        this.errors = [];
        this.known = new Map();
        this.sockets = [];
        this.clipboard = [];
        this.requests = [];
        this.timers = [];
        this.timer = 0;
        const page = this;
        this.report = (e) => { this.errors.push(String((e && e.stack && `${e.name}: ${e.message}`) || e)); };

        let fragment = hash;
        const location = {
            protocol: "http:", host, hostname: host.split(":")[0], port: host.split(":")[1] || "", pathname: "/", search: "",
            origin: "http://" + host,
            get hash() { return fragment ? "#" + fragment : ""; },
            set hash(h) {
                fragment = String(h).replace(/^#/, "").replace(/[\u0000-\u0020"<>`\u007f-\uffff]+/g, (c) => encodeURIComponent(c));
            },
            get href() { return "http://" + host + "/" + this.hash; },
            set href(h) { this.assign(h); },
            assign(h) {
                if (String(h).startsWith("#")) this.hash = h; else throw new Error("HARNESS: navigation to " + h);
            },
            replace(h) { this.assign(h); },
            reload() {},
            toString() { return this.href; },
        };
        const at = (url) => {
            const i = String(url === undefined || url === null ? "" : url).indexOf("#");
            if (i >= 0) location.hash = String(url).slice(i);
        };
        this.location = location;
        this.document = new Document(html, location);

        const wait = (f, ms, args, every) => {
            this.timers.push({ id: ++this.timer, f, ms: Number(ms) || 0, args, every });
            return this.timer;
        };
        const forget = (id) => { this.timers = this.timers.filter((t) => t.id !== id); };
        class Request extends Target {
            open(method, url) { this.method = method; this.url = url; }
            setRequestHeader() {}
            send(body) { page.requests.push([this.method, this.url, body]); }
            abort() {}
        }
        const window = new Target();
        const g = {
            document: this.document, location, Node, Element, HTMLElement: Element, Text, DocumentFragment: Fragment,
            Event: FakeEvent, CustomEvent: FakeEvent, KeyboardEvent: FakeEvent, MouseEvent: FakeEvent,
            Option: function (text, value, selected_, selected) {
                const o = page.document.createElement("option");
                if (text !== undefined) o.text = text;
                if (value !== undefined) o.value = value;
                o.selected = !!selected;
                return o;
            },
            WebSocket: sockets(this), XMLHttpRequest: Request,
            URL, URLSearchParams, TextEncoder, TextDecoder, structuredClone,
            console: { log() {}, error() {}, warn() {}, info() {}, debug() {} },
            navigator: { userAgent: "fake", language: "en", clipboard: { writeText: (t) => { this.clipboard.push(String(t)); return Promise.resolve(); } } },
            history: { pushState(_, __, u) { at(u); }, replaceState(_, __, u) { at(u); }, state: null },
            localStorage: { getItem: () => null, setItem() {}, removeItem() {} },
            sessionStorage: { getItem: () => null, setItem() {}, removeItem() {} },
            performance: { now: () => 0 },
            setTimeout: (f, ms, ...args) => wait(f, ms, args, false),
            setInterval: (f, ms, ...args) => wait(f, ms, args, true),
            requestAnimationFrame: (f) => wait(f, 0, [0], false),
            queueMicrotask, clearTimeout: forget, clearInterval: forget, cancelAnimationFrame: forget,
            fetch: (u, o) => { this.requests.push([(o && o.method) || "GET", u, o && o.body]); return new Promise(() => {}); },
            alert() {}, confirm: () => true, prompt: () => null, scrollTo() {}, getComputedStyle: (e) => e.style,
            matchMedia: () => ({ matches: false, addEventListener() {} }), innerWidth: 1000, innerHeight: 800,
            addEventListener: (...a) => window.addEventListener(...a),
            removeEventListener: (...a) => window.removeEventListener(...a),
            dispatchEvent: (e) => window.dispatchEvent(e),
        };
        const context = vm.createContext(g);
        vm.runInContext("var window = globalThis, self = globalThis;", context);
        this.document.defaultView = vm.runInContext("window", context);
        Target.report = this.report;
        for (const e of this.document.querySelectorAll("script")) {
            const code = e.hasAttribute("src") ? scripts(e.src) : e.textContent;
            try {
                compiled(code).runInContext(context);
            } catch (e) {
                this.report(e);
            }
        }
        for (const [type, ready] of [["DOMContentLoaded", "interactive"], ["load", "complete"]]) {
            this.document.readyState = ready;
            (type === "load" ? window : this.document).dispatchEvent(new FakeEvent(type));
            const on = type === "load" && context.onload;
            if (typeof on === "function") on(new FakeEvent(type));
        }
    }

    // What was put off until later happens
    async settle() {
        Target.report = this.report;
        for (let round = 0; round < 50; round++) {
            await new Promise((r) => LATER(r));
            const due = this.timers.filter((t) => t.ms <= 1000);
            if (!due.length) break;
            if (round && due.every((t) => t.every)) break;
            due.sort((a, b) => a.ms - b.ms);
            this.timers = this.timers.filter((t) => t.every || !due.includes(t));
            for (const t of due) {
                try {
                    t.f(...t.args);
                } catch (e) {
                    this.report(e);
                }
            }
        }
        await new Promise((r) => LATER(r));
    }

    element(id) {
        let e = this.known.get(id);
        if (e && e.isConnected && e.id === id) return e;
        e = this.document.getElementById(id);
        this.known.set(id, e);
        if (!e) throw new Error("HARNESS: the page has no #" + id);
        return e;
    }

    type(id, value) {
        const e = this.element(id);
        e.value = value;
        e.dispatchEvent(new FakeEvent("input", { bubbles: true }));
        e.dispatchEvent(new FakeEvent("change", { bubbles: true }));
    }

    key(id, ctrl, key, code) {
        for (const type of ["keydown", "keypress", "keyup"]) {
            this.element(id).dispatchEvent(new FakeEvent(type, {
                bubbles: true, key, code: key, keyCode: code, which: code, ctrlKey: ctrl, metaKey: false, shiftKey: false, altKey: false, repeat: false, isComposing: false,
            }));
        }
    }

    look(examples) {
        const text = (n) => (n instanceof Text ? n.data : n.localName === "a" ? "" : n.childNodes.map(text).join(""));
        const d = this.document;
        const of = (e) => ({
            text: text(e),
            links: e.getElementsByTagName("a").map((a) => [a.textContent, a.href]),
            widths: e._all().map((x) => x.style.width).filter((w) => typeof w === "string" && w.endsWith("%")).map(parseFloat),
            tags: e._all().map((x) => x.localName),
        });
        return {
            status: this.element("status").textContent,
            log: this.element("log").children.map((e) => e.textContent),
            log_text: this.element("log").textContent,
            log_tags: this.element("log")._all().map((x) => x.localName),
            status_tags: this.element("status")._all().map((x) => x.localName),
            results: this.element("output").children.map(of),
            input: this.element("input").value,
            custom: this.element("custom-wordlist").value,
            sort: this.element("sort").checked,
            filtered: this.element("enable-filter").checked,
            filter: this.element("filter").value,
            words: this.element("max-phrase-length").value,
            limit: this.element("max-results").value,
            list: this.element("wordlist").value,
            lists: this.element("wordlist").options.map((o) => [o.value, o.textContent]),
            choices: { words: this.element("max-phrase-length").options.map((o) => o.value), limit: this.element("max-results").options.map((o) => o.value) },
            examples: examples ? d.querySelectorAll("a.example").map((a) => [a.textContent, a.href]) : [],
            hash: this.location.hash,
            clipboard: this.clipboard,
            sockets: this.sockets.map((s) => [s.url, s.sent, s.readyState]),
            errors: this.errors,
            requests: this.requests,
        };
    }
}

const cache = new Map();
function compiled(code) {
    if (cache.size > 20) cache.clear();
    if (!cache.has(code)) cache.set(code, new vm.Script(code, { filename: "page" }));
    return cache.get(code);
}

// The server's end is played by steps of the session
function played(page) {
    return class WebSocket extends Target {
        static CONNECTING = 0;
        static OPEN = 1;
        static CLOSING = 2;
        static CLOSED = 3;
        CONNECTING = 0;
        OPEN = 1;
        CLOSING = 2;
        CLOSED = 3;
        constructor(url) {
            super();
            this.url = String(url);
            this.readyState = 0;
            this.sent = [];
            this.binaryType = "blob";
            this.bufferedAmount = 0;
            page.sockets.push(this);
        }
        send(data) {
            if (this.readyState === 0) throw new Error("InvalidStateError: still in CONNECTING state");
            if (this.readyState === 1) this.sent.push(String(data));
        }
        close() {
            if (this.readyState < 2) this.readyState = 2;
        }
        opens() {
            if (this.readyState !== 0) return;
            this.readyState = 1;
            this.dispatchEvent(new FakeEvent("open"));
        }
        gets(data) {
            if (this.readyState === 1) this.dispatchEvent(new FakeEvent("message", { data }));
        }
        ends(error) {
            if (this.readyState === 3) return;
            this.readyState = 3;
            if (error) this.dispatchEvent(new FakeEvent("error"));
            this.dispatchEvent(new FakeEvent("close", { code: error ? 1006 : 1005, wasClean: !error, reason: "" }));
        }
    };
}

// A real one. Its events are those of the platform, so the data is passed on
function real(page) {
    const Played = played(page);
    return class extends Played {
        constructor(url) {
            super(url);
            this.ws = new WebSocket(String(url).replace(/^ws:\/\/[^/]*/, "ws://" + page.location.host));
            this.ended = new Promise((resolve) => { this.resolve = resolve; });
            this.ws.onopen = () => this.opens();
            this.ws.onmessage = (e) => this.gets(e.data);
            this.ws.onclose = () => { this.ends(false); this.resolve(); };
            this.ws.onerror = () => {};
        }
        send(data) {
            super.send(data);
            this.ws.send(data);
        }
        close() {
            super.close();
            this.ws.close();
        }
    };
}

async function play(steps) {
    const seen = [];
    let page = null;
    let first = null;
    const open = async (hash) => {
        if (first.server) {
            const get = async (path) => {
                const answer = await fetch(`http://${first.server}${path}`).catch((e) => { throw new Error("HARNESS: " + e + e.cause); });
                return await answer.text();
            };
            const js = await get("/wordlists.js");
            page = new Page(await get("/"), first.server, hash, () => js, real);
        } else {
            page = new Page(fs.readFileSync(PAGE, "utf8"), "noodle.example", hash, () => first.wordlists, played);
        }
        await page.settle();
    };
    for (const step of steps) {
        const [what, ...args] = Array.isArray(step) ? step : ["start", step];
        const socket = page && page.sockets[args[0] < 0 ? page.sockets.length + args[0] : args[0]];
        switch (what) {
            case "start": first = args[0]; await open(first.hash || ""); break;
            // The address is opened again, elsewhere
            case "reopen": await open(page.location.hash.slice(1)); break;
            case "type": page.type(args[0], args[1]); break;
            case "click": page.element(args[0]).click(); break;
            case "key": page.key("input", args[0], args[1], args[2]); break;
            case "example": page.document.querySelectorAll("a.example")[args[0]].click(); break;
            case "link": page.element("output").children[args[0]].getElementsByTagName("a")[args[1]].click(); break;
            case "open": socket.opens(); break;
            case "message": socket.gets(args[1]); break;
            case "end": socket.ends(args[1]); break;
            case "wait": {
                const s = page.sockets[page.sockets.length - 1];
                await Promise.race([s.ended, new Promise((r) => setTimeout(r, args[0]))]);
                break;
            }
            case "look": seen.push(JSON.stringify(page.look(args[0]))); break;
            default: throw new Error("HARNESS: step " + what);
        }
        await page.settle();
    }
    return seen;
}

(async () => {
    for await (const line of readline.createInterface({ input: process.stdin })) {
        let answer;
        try {
            answer = `{"seen":[${(await play(JSON.parse(line))).join()}]}`;
        } catch (e) {
            answer = JSON.stringify({ failed: String((e && e.stack) || e) + (e && e.cause ? " because of " + e.cause : "") });
        }
        process.stdout.write(answer + "\n");
    }
})();
