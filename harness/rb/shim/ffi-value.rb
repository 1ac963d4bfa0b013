# Stand-in for the ffi-value gem (not installed here): the :value type carries a Ruby object as its VALUE.
require 'ffi'
require 'fiddle'
module FFI
  class RubyValue
    extend FFI::DataConverter
    native_type FFI::Type::POINTER
    def self.to_native(v, _ctx)
      FFI::Pointer.new(Fiddle.dlwrap(v))
    end
    def self.from_native(p, _ctx)
      Fiddle.dlunwrap(p.address)
    end
    def self.reference_required?
      true
    end
  end
  class AbstractMemory
    def read_value; Fiddle.dlunwrap(get_pointer(0).address); end
    def get_value(o); Fiddle.dlunwrap(get_pointer(o).address); end
    def write_value(v); put_pointer(0, FFI::Pointer.new(Fiddle.dlwrap(v))); end
    def put_value(o, v); put_pointer(o, FFI::Pointer.new(Fiddle.dlwrap(v))); end
  end
  typedef RubyValue, :value
end
