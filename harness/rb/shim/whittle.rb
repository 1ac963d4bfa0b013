module Whittle; class Parser
  def self.method_missing(*a, **k, &b); end
  class R; def method_missing(*a, **k, &b) self end; end
  def self.rule(*a, **k, &b) b.call(R.new) if b; R.new end
end
class Error < StandardError; end
class ParseError < Error; end
end
