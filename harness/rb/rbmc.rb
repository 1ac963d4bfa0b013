# Exhaustive enumerator for the Ruby bindings: the counterpart of pymc.py and mc.cpp. A suite is a block that draws every
# decision from choose(); all choice sequences are executed once, split over --nshards workers. The current choices and
# any failure message are kept in a shared file in mc.cpp's layout, so that run.py drives every kind of harness.
require 'json'
require 'zlib'
require 'fiddle'

module MC
  HDR = 20
  MAXC = 4096
  SUITES = []

  class Skip < Exception; end
  class Violation < Exception; end

  class << self
    attr_accessor :tape, :lim, :pos, :sharded, :shard, :nshards, :tier, :verbose, :steps, :states, :h, :shm, :replay, :owners, :index
  end
  self.tape, self.lim, self.pos, self.sharded, self.shard, self.nshards = [], [], 0, false, 0, 1
  self.tier, self.verbose, self.steps, self.states, self.h, self.owners = "quick", false, 0, 0, 0, []

  def self.phase(p) shm.pwrite([p].pack("l"), 16) end

  def self.choose(n, label)
    raise Violation, "harness: choose(#{n}) #{label}" if n <= 0
    p = pos
    if p < tape.size
      v = tape[p]
      if p < lim.size
        raise Violation, "harness is not deterministic: #{label} had #{lim[p]} choices, now #{n}" if lim[p] != n
      else
        lim.push n
      end
      raise Violation, "harness: choice out of range" if v >= n
    else
      v = 0
      tape.push 0
      lim.push n
      self.states += 1
    end
    self.pos += 1
    if p < MAXC
      shm.pwrite([v].pack("S"), HDR + 2 * p)
      shm.pwrite([p + 1].pack("l"), 12)
    end
    $stderr.puts "  choose #{label}: #{v} of #{n}" if verbose
    v
  end

  def self.record(msg)
    if ENV["PYMC_ALL"]
      @all ||= {}
      k = msg.gsub(/0x[0-9a-f]+/, "").strip[0, 400]
      unless @all[k]
        @all[k] = true
        puts "#{SUITES[index][0]}:#{tape[0, pos].join(",")}\n#{msg}\n\n"
        $stdout.flush
      end
      return
    end
    b = msg.dup.force_encoding("BINARY")[0, 4000]
    shm.pwrite(b + "\0", HDR + 2 * MAXC)
    phase(2)
    $stderr.puts "VIOLATED: #{b}"
    $stderr.flush
    exit!(3)
  end

  LIB = Fiddle.dlopen(ENV["LIBCCONFIGSPACE_SO"])
  LIVE = Fiddle::Function.new(LIB["pymc_live"], [], Fiddle::TYPE_LONG)
  def self.live() LIVE.call end

  # run every finalizer the bindings registered during the execution, as the collector would
  def self.release_all
    owners.each { |proc, id| proc.call(id) }
    owners.clear
  end

  def self.run_once(f)
    self.pos, self.sharded, self.h = 0, false, 0
    shm.pwrite([0].pack("l"), 12)
    phase(1)
    done = true
    CCS.clear_thread_error
    before = live
    begin
      f.call
      release_all
      CCS.clear_thread_error
      raise Violation, "the library still holds #{live - before} blocks once every object was released" if live != before
    rescue Skip
      release_all
      done = false
    rescue Violation => e
      if e.message.start_with?("harness") && !ENV["PYMC_ALL"]
        $stderr.puts e.message
        $stderr.flush
        exit!(9)
      end
      record(e.message)
      owners.clear
    rescue Exception => e
      record("unexpected #{e.class}: #{e.message[0, 600]}\n#{(e.backtrace || [])[0, 8].join("\n")}")
      owners.clear
    end
    phase(0)
    shm.pwrite([shm.pread(8, 0).unpack1("Q") + 1].pack("Q"), 0)
    done
  end

  def self.main
    a = ARGV.dup
    o = {}
    until a.empty?
      x = a.shift
      case x
      when "-v" then self.verbose = true
      when "--list" then puts SUITES.map(&:first); return
      else o[x] = a.shift
      end
    end
    self.tier = o["--tier"] || "quick"
    path = o["--shm"] || "/tmp/rbmc.#{$$}"
    self.shm = File.open(path, File::RDWR | File::CREAT)
    shm.truncate(HDR + 2 * MAXC + 4096 + 64)
    File.unlink(path) unless o["--shm"]
    GC.disable
    owners.clear  # what the bindings keep for the life of the process
    if o["--replay"]
      name, cs = o["--replay"].split(":", 2)
      f = SUITES.find { |n, _| n == name }[1]
      self.index = SUITES.index { |n, _| n == name }
      shm.pwrite([index].pack("l"), 8)
      self.tape = (cs || "").split(",").map(&:to_i)
      self.replay = true
      run_once(f)
      puts "held"
      $stdout.flush
      exit!(0)
    end
    self.shard, self.nshards = (o["--shard"] || 0).to_i, (o["--nshards"] || 1).to_i
    out = []
    t0 = Time.now
    SUITES.each_with_index { |(name, f), si|
      next if o["--suite"] && !o["--suite"].split(",").include?(name)
      self.index = si
      shm.pwrite([si].pack("l"), 8)
      self.tape, self.lim, self.steps, self.states = [], [], 0, 0
      n, hs, mx, sample, runs = 0, {}, 0, "", 0
      loop {
        done = run_once(f)
        done = false if done && !sharded && nshards > 1 && shard != 0
        if done
          n += 1
          hs[h] = true
          mx = pos if pos > mx
          sample = tape[0, pos].join(",") if n <= 5
        end
        tape.slice!(pos..-1)
        lim.slice!(pos..-1)
        while !tape.empty? && tape[-1] + 1 >= lim[-1]
          tape.pop
          lim.pop
        end
        break if tape.empty?
        tape[-1] += 1
        runs += 1
        if runs % 512 == 0
          GC.enable
          GC.start
          GC.disable
        end
      }
      out.push(name: name, executions: n, states: states, transitions: steps, outcomes: hs.size, nontrivial: hs.size,
               max_choices: mx, sample: "#{name}:#{sample}")
    }
    if o["--out"]
      File.write(o["--out"], JSON.generate(suites: out, wall: Time.now - t0))
    else
      puts JSON.pretty_generate(out)
    end
    phase(3)
    $stdout.flush
    exit!(0)
  end
end

# The finalizers of the bindings' objects run when an execution ends, not whenever the collector happens to.
module ObjectSpace
  class << self
    alias mc_define_finalizer define_finalizer
    def define_finalizer(obj, callable = nil, &b)
      c = callable || b
      if defined?(CCS::Object) && CCS::Object === obj
        MC.owners.push [c, obj.__id__]
      else
        mc_define_finalizer(obj, c)
      end
    end
  end
end

def suite(name, &b) MC::SUITES.push [name.to_s, b] end
def thorough() MC.tier == "thorough" end
def tier_bound(q, t) thorough ? t : q end
def choose(n, label = "") MC.choose(n, label) end
def pick(seq, label = "")
  v = seq[choose(seq.size, label)]
  $stderr.puts "    = #{v.inspect[0, 200]}" if MC.verbose
  v
end
def flip(label = "") choose(2, label) == 1 end
def prune() raise MC::Skip end
def step(*a)
  MC.steps += 1
  $stderr.puts "  step #{a.map { |x| x.to_s[0, 300] }.join(" ")}" if MC.verbose
end
def obs(*a) MC.h = Zlib.crc32(a.inspect.b, MC.h) end
def fail!(m) raise MC::Violation, m end
def check(c, m) fail!(m) unless c end
def shard_point
  return if MC.sharded || MC.replay
  MC.sharded = true
  k = Zlib.crc32(MC.tape[0, MC.pos].pack("S*"))
  if k % MC.nshards != MC.shard
    MC.tape.slice!(MC.pos..-1)
    MC.lim.slice!(MC.pos..-1)
    raise MC::Skip
  end
end

# a value as it can be compared: kind, and bytes for strings and floats
def val(v)
  case v
  when String then [:s, v.b]
  when Symbol then [:sym, v.to_s.b]
  when Float then [:f, [v].pack("E")]
  when Array then v.map { |x| val(x) }
  when CCS::Object then [:o, v.handle.address]
  when CCS::InactiveClass then [:inactive]
  else [v.class.name, v]
  end
end

def same(got, want, what)
  MC.steps += 1
  g, w = val(got), val(want)
  fail!("#{what}: got #{got.inspect[0, 300]}, not #{want.inspect[0, 300]}") if g != w
end

# the error code with which the bindings refuse a call
def refused(what)
  begin
    r = yield
  rescue CCS::CCSError => e
    MC.steps += 1
    return e
  end
  fail!("#{what} was accepted and gave #{r.inspect[0, 200]}")
end
