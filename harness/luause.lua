-- Executes commands from standard input with the Lua module, one line of output each
local location = require("location")
-- (the messages of the library go nowhere)
location.set_log_level(0)

local objects = {}

local function unh(s)
	if s == "-" or s == nil then return nil end
	if s:sub(1, 1) ~= "=" then return tonumber(s) end
	return (s:sub(2):gsub("%x%x", function(x) return string.char(tonumber(x, 16)) end))
end

local function h(v)
	local t = type(v)
	if v == nil then return "-" end
	if t == "boolean" then return tostring(v) end
	if t == "number" then return string.format("%.0f", v) end
	if t == "string" then return "=" .. v:gsub(".", function(c) return string.format("%02x", c:byte()) end) end
	return "?" .. t
end

-- gsub does not match newlines with "." in all versions: make sure
assert(h("a\n") == "=610a")

local function join(...)
	local out = {}
	for i = 1, select("#", ...) do out[i] = h((select(i, ...))) end
	return table.concat(out, " ")
end

local FLAGS = { location.NETWORK_FLAG_ANONYMOUS_PROXY, location.NETWORK_FLAG_SATELLITE_PROVIDER, location.NETWORK_FLAG_ANYCAST, location.NETWORK_FLAG_DROP }
local BITS = { 1, 2, 4, 8 }

local function net(n)
	if n == nil then return "-" end
	local flags = 0
	for i, f in ipairs(FLAGS) do
		if n:has_flag(f) then flags = flags + BITS[i] end
	end
	-- Several flags at once: any of them
	for _, several in ipairs({ 3, 6, 9, 12, 15 }) do
		if n:has_flag(several) ~= (flags & several ~= 0) then return "has_flag" end
	end
	return join(tostring(n), n:get_family(), n:get_country_code(), n:get_asn(), flags)
end

local function as(a)
	if a == nil then return "-" end
	return join(a:get_number(), a:get_name(), tostring(a))
end

local function country(c)
	if c == nil then return "-" end
	return join(c:get_code(), c:get_name(), c:get_continent_code(), tostring(c))
end

local commands = {}

function commands.open(slot, path) objects[slot] = location.Database.open(unh(path)) return "ok" end
function commands.meta(slot)
	local db = objects[slot]
	return join(db:get_vendor(), db:get_description(), db:get_license(), db:created_at())
end
function commands.lookup(slot, address, keep)
	local n = objects[slot]:lookup(unh(address))
	if keep then objects[keep] = n end
	return net(n)
end
function commands.net(slot) return net(objects[slot]) end
function commands.as(slot, number) return as(objects[slot]:get_as(unh(number))) end
function commands.country(slot, code) return country(objects[slot]:get_country(unh(code))) end
function commands.verify(slot, path) return h(objects[slot]:verify(unh(path))) end
function commands.list(slot)
	local out = { "ok" }
	for n in objects[slot]:list_networks() do
		out[#out + 1] = net(n)
	end
	return table.concat(out, " | ")
end
function commands.iter(slot, db) objects[slot] = objects[db]:list_networks() return "ok" end
function commands.next(slot, count)
	local out = { "ok" }
	for i = 1, tonumber(count) do
		local n = objects[slot]()
		if n == nil then
			out[#out + 1] = "end"
			break
		end
		out[#out + 1] = net(n)
	end
	return table.concat(out, " | ")
end
function commands.drop(slot) objects[slot] = nil return "ok" end
function commands.gc() collectgarbage("collect") return "ok" end
function commands.newnet(slot, text) objects[slot] = location.Network.new(unh(text)) return net(objects[slot]) end
function commands.newas(slot, number) objects[slot] = location.AS.new(unh(number)) return as(objects[slot]) end
function commands.newcountry(slot, code) objects[slot] = location.Country.new(unh(code)) return country(objects[slot]) end
function commands.same(a, b) return h(objects[a] == objects[b]) end
function commands.subnets(slot)
	local s = objects[slot]:subnets()
	return #s .. " | " .. net(s[1]) .. " | " .. net(s[2])
end
function commands.rptr(slot, suffix) return h(objects[slot]:reverse_pointer(unh(suffix))) end

-- Every function with random values: errors are fine
function commands.misuse(seed, count, path, key, scratch)
	math.randomseed(tonumber(seed))
	local function pick(t) return t[math.random(#t)] end
	local calls, errors = 0, 0
	local seen = {}
	local distinct = 0
	local pool, targets
	local function refresh()
		local released = location.Network.new("10.0.0.0/8")
		released:__gc()
		local released_as, released_db, released_country = location.AS.new(5), location.Database.open(unh(path)), location.Country.new("DE")
		released_as:__gc() released_db:__gc() released_country:__gc()
		local db = location.Database.open(unh(path))
		local it = db:list_networks()
		pool = { 0, 1, -1, 2^31, 2^32 - 1, 2^32, -2^31, 2^53, 1e300, 0/0, 1/0, -1/0, 1.5, "", "DE", "de", "DEU", "A1", "1.2.3.4", "1.2.3.4/33", "10.0.0.0/8", "::/0", "nonsense", "a\0b", string.rep("x", 100000),
			"%s%n", true, false, {}, print, function() error("no") end, coroutine.create(function() end), io.stdout, db, location.Network.new("10.0.0.0/8"), location.Network.new("2001:db8::1/128"), location.AS.new(2^32 - 1), location.Country.new("DE"),
			released, released_as, released_db, released_country, it, location, unh(path), unh(key), unh(scratch), "12", "0x10", 204867 }
		targets = { location.AS, location.Country, location.Database, location.DatabaseEnumerator, location.Network }
	end
	for i = 1, tonumber(count) do
		if i % 50 == 1 then refresh() end
		local class = pick(targets)
		local names = {}
		for k, v in pairs(class) do
			if type(v) == "function" then names[#names + 1] = k end
		end
		table.sort(names)
		local name = pick(names)
		local fn = class[name]
		local nargs = math.random(0, 3)
		local args = {}
		for j = 1, nargs do
			if math.random() < 0.1 then args[j] = nil else args[j] = pick(pool) end
		end
		-- A matching receiver, most of the time
		if name ~= "new" and name ~= "open" and math.random() < 0.7 then
			for _, v in ipairs({ 1 }) do
				local candidates = {}
				for _, o in ipairs(pool) do
					if type(o) == "userdata" and getmetatable(o) == class then candidates[#candidates + 1] = o end
				end
				if #candidates > 0 then args[1] = pick(candidates) end
				if nargs == 0 then nargs = 1 end
			end
		end
		local ok, r = pcall(fn, table.unpack(args, 1, nargs))
		calls = calls + 1
		if not ok then errors = errors + 1 end
		local k = tostring(class.__name) .. name .. tostring(ok) .. type(r)
		if not seen[k] then
			seen[k] = true
			distinct = distinct + 1
		end
		if ok and type(r) == "function" then
			for _ = 1, 5 do pcall(r) end
		elseif ok and type(r) == "userdata" then
			pcall(tostring, r)
		end
		if math.random() < 0.05 then collectgarbage("step") end
	end
	return "ok " .. calls .. " " .. errors .. " " .. distinct
end

-- Messages from the library, to callbacks that fail or whose coroutine is gone
function commands.logging(path)
	local called = 0
	local co = coroutine.create(function()
		location.set_log_callback(function(level, message)
			assert(type(level) == "number" and type(message) == "string")
			called = called + 1
			if called % 3 == 0 then error("in the callback") end
			if called % 5 == 0 then error({}) end
		end)
	end)
	assert(coroutine.resume(co))
	co = nil
	collectgarbage("collect")
	collectgarbage("collect")
	location.set_log_level(7)
	for i = 1, 3 do
		local db = location.Database.open(unh(path))
		db:lookup("1.2.3.4")
		pcall(location.Database.open, "/dev/null")
		db = nil
		collectgarbage("collect")
		location.set_log_callback(function(level, message) called = called + 1 if i == 2 then error("again") end end)
	end
	location.set_log_level(0)
	collectgarbage("collect")
	return "ok " .. called
end

for line in io.lines() do
	local words = {}
	for w in line:gmatch("%S+") do words[#words + 1] = w end
	local ok, r = pcall(commands[words[1]], table.unpack(words, 2))
	if ok then
		print(r)
	else
		print("error " .. h(tostring(r)))
	end
	io.stdout:flush()
end
objects = nil
collectgarbage("collect")
collectgarbage("collect")
-- (without unloading the module, so that stacks can be resolved)
os.exit(true, false)
