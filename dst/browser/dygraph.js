// What a line plot can need of dygraphs 1.1.1 and its synchronizer, written
// from their documented behaviour.  Loaded as text into the page.
(function () {
    "use strict";
    var page = __page, window = page.window;
    function Dygraph(div, file, attrs) {
        if (!div) { page.consoleErrors.push("Constructing dygraph with a non-existent div!"); throw new Error("dygraph: no such div"); }
        this.maindiv_ = div;
        this.attrs_ = Object.assign({}, attrs);
        this.dateWindow_ = attrs.dateWindow || null;
        this.valueWindow_ = null;
        this.rawData_ = file;
        if (!file || !file.length) { page.consoleErrors.push("Can't plot empty data set"); this.rawData_ = null; }
        else if (attrs.labels && attrs.labels.length !== file[0].length) page.consoleErrors.push("Mismatch between number of labels (" + attrs.labels + ") and number of columns in array (" + file[0].length + ")");
        this.width_ = div.layoutWidth();
        this.height_ = 320;
        div.dygraph_ = this;
        page.graphs.push(this);
        this.draw_(true);
    }
    var P = Dygraph.prototype;
    P.draw_ = function (initial) {
        this.drawn_ = true;
        var cb = this.attrs_.drawCallback;
        if (cb) cb.call(this, this, !!initial);
    };
    P.numRows = function () { return this.rawData_ ? this.rawData_.length : 0; };
    P.numColumns = function () { return this.rawData_ ? this.rawData_[0].length : 0; };
    P.getValue = function (r, c) { return this.rawData_[r] && this.rawData_[r][c]; };
    P.xAxisExtremes = function () {
        if (!this.numRows()) return [0, 1];
        return [this.rawData_[0][0], this.rawData_[this.rawData_.length - 1][0]];
    };
    P.xAxisRange = function () { return this.dateWindow_ ? this.dateWindow_.slice() : this.xAxisExtremes(); };
    P.yAxisRange = function () {
        if (this.valueWindow_) return this.valueWindow_.slice();
        if (this.attrs_.valueRange) return this.attrs_.valueRange.slice();
        var w = this.xAxisRange(), lo = Infinity, hi = -Infinity;
        (this.rawData_ || []).forEach(function (r) {
            if (r[0] < w[0] || r[0] > w[1]) return;
            for (var i = 1; i < r.length; i++) {
                var v = r[i];
                if (v === null || v === undefined || isNaN(v)) continue;
                if (v < lo) lo = v;
                if (v > hi) hi = v;
            }
        });
        if (lo > hi) { lo = 0; hi = 1; }
        var span = hi - lo;
        if (span === 0) { if (hi !== 0) span = Math.abs(hi); else { hi = 1; span = 1; } }
        var a = lo - .1 * span, b = hi + .1 * span;
        if (a < 0 && lo >= 0) a = 0;
        if (b > 0 && hi <= 0) b = 0;
        return [a, b];
    };
    P.yAxisRanges = function () { return [this.yAxisRange()]; };
    P.updateOptions = function (o, block) {
        if ("dateWindow" in o) this.dateWindow_ = o.dateWindow ? [o.dateWindow[0], o.dateWindow[1]] : null;
        if ("valueRange" in o) this.valueWindow_ = null;
        if ("file" in o) this.rawData_ = o.file;
        Object.assign(this.attrs_, o);
        if (!block) this.draw_(false);
    };
    P.getOption = function (n) { return n === "dateWindow" ? this.dateWindow_ : this.attrs_[n]; };
    P.resize = function (w, h) {
        // both or none, as dygraphs has it
        if ((w === null) !== (h === null)) { w = h = null; }
        if (w !== undefined && w !== null) { this.width_ = w; this.height_ = h; } else { this.width_ = this.maindiv_.layoutWidth(); }
        if (this.width_ !== this.width_ && page.document.getElementById(this.maindiv_.id)) page.consoleErrors.push("a graph was given the width NaN");
        this.draw_(false);
    };
    P.resetZoom = function () {
        this.dateWindow_ = null;
        this.valueWindow_ = null;
        this.attrs_.dateWindow = null;
        this.draw_(false);
    };
    P.isZoomed = function () { return !!(this.dateWindow_ || this.valueWindow_); };
    P.setVisibility = function () { };
    P.setSelection = function () { };
    P.clearSelection = function () { };
    P.destroy = function () { this.destroyed_ = true; };
    P.ready = function (cb) { cb.call(this, this); };
    P.getLabels = function () { return this.attrs_.labels; };
    P.rollPeriod = function () { return this.attrs_.rollPeriod; };
    // what the user's mouse does
    P.userZoomX_ = function (a, b) { this.dateWindow_ = [a, b]; this.attrs_.dateWindow = [a, b]; this.draw_(false); };
    P.userZoomY_ = function (a, b) { this.valueWindow_ = [a, b]; this.draw_(false); };
    page.lacks(P, "dygraph.", "adjustRoll annotations setAnnotations eventToDomCoords toDomCoords toDomXCoord toDomYCoord toDataCoords toDataXCoord " +
        "toDataYCoord toPercentXCoord toPercentYCoord getArea getColors getPropertiesForSeries getSelection getHighlightSeries isSeriesLocked " +
        "indexFromSetName getRowForX numAxes visibility size getOptionForAxis getNumericOption getStringOption getBooleanOption getFunctionOption " +
        "attr_ file_ layout_ plotter_ canvas_ axes_ toString");
    window.Dygraph = Dygraph;
})();
