'use strict';
module.exports = {};
