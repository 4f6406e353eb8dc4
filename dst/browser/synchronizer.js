(function () {
    "use strict";
    var Dygraph = __page.window.Dygraph;
    function same(a, b) {
        return Array.isArray(a) && Array.isArray(b) && a.length === b.length && a.every(function (x, i) { return x === b[i]; });
    }
    Dygraph.synchronize = function (gs, opts) {
        if (!Array.isArray(gs)) { gs = Array.prototype.slice.call(arguments); opts = gs.pop(); }
        if (gs.length < 2) throw new Error("Invalid invocation of Dygraph.synchronize(). Need two or more dygraphs to synchronize.");
        gs = gs.slice();
        opts = Object.assign({ selection: true, zoom: true, range: true }, opts);
        var block = false, before = gs.map(function (g) { return g.getOption("drawCallback"); });
        if (opts.zoom) gs.forEach(function (g, k) {
            g.updateOptions({
                drawCallback: function (me, initial) {
                    if (before[k]) before[k].call(this, me, initial);
                    if (block || initial) return;
                    block = true;
                    var o = { dateWindow: me.xAxisRange() };
                    if (opts.range) o.valueRange = me.yAxisRange();
                    gs.forEach(function (h) {
                        if (h === me) return;
                        if (same(o.dateWindow, h.getOption("dateWindow")) && (!opts.range || same(o.valueRange, h.getOption("valueRange")))) return;
                        h.updateOptions(o);
                    });
                    block = false;
                }
            }, true);
        });
        return {
            detach: function () {
                gs.forEach(function (g, k) { g.updateOptions({ drawCallback: before[k] || null }); });
                gs = [];
            }
        };
    };
})();
