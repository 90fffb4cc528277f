package com.iconloop.score.token.irc31;
import score.*;
import score.annotation.External;
import score.annotation.Optional;
import java.math.BigInteger;

public class IRC31Basic implements IRC31 {
    private static final Address ZERO = new Address(new byte[Address.LENGTH]);
    private final BranchDB<BigInteger, DictDB<Address, BigInteger>> balances = Context.newBranchDB("token_balances", BigInteger.class);
    private final BranchDB<Address, DictDB<Address, Boolean>> approvals = Context.newBranchDB("token_approvals", Boolean.class);
    private final DictDB<BigInteger, String> uris = Context.newDictDB("token_uris", String.class);

    @External(readonly = true)
    public BigInteger balanceOf(Address _owner, BigInteger _id) { return balances.at(_id).getOrDefault(_owner, BigInteger.ZERO); }
    @External(readonly = true)
    public BigInteger[] balanceOfBatch(Address[] _owners, BigInteger[] _ids) {
        Context.require(_owners.length == _ids.length);
        BigInteger[] r = new BigInteger[_ids.length];
        for (int i = 0; i < r.length; i++) r[i] = balanceOf(_owners[i], _ids[i]);
        return r;
    }
    @External(readonly = true)
    public String tokenURI(BigInteger _id) { return uris.get(_id); }
    private void add(Address a, BigInteger id, BigInteger v) {
        BigInteger b = balanceOf(a, id).add(v);
        Context.require(b.signum() >= 0, "Insufficient funds");
        balances.at(id).set(a, b);
    }
    private void move(Address from, Address to, BigInteger id, BigInteger v) {
        Context.require(v.signum() >= 0 && v.compareTo(balanceOf(from, id)) <= 0, "Insufficient funds");
        add(from, id, v.negate());
        add(to, id, v);
    }
    private void allowed(Address from) {
        Context.require(from.equals(Context.getCaller()) || isApprovedForAll(from, Context.getCaller()), "Need operator approval");
    }
    @External
    public void transferFrom(Address _from, Address _to, BigInteger _id, BigInteger _value, @Optional byte[] _data) {
        allowed(_from);
        Context.require(!_to.equals(ZERO));
        move(_from, _to, _id, _value);
        single(_from, _to, _id, _value, _data);
    }
    @External
    public void transferFromBatch(Address _from, Address _to, BigInteger[] _ids, BigInteger[] _values, @Optional byte[] _data) {
        allowed(_from);
        Context.require(!_to.equals(ZERO));
        Context.require(_ids.length == _values.length);
        for (int i = 0; i < _ids.length; i++) move(_from, _to, _ids[i], _values[i]);
        batch(_from, _to, _ids, _values, _data);
    }
    private void single(Address from, Address to, BigInteger id, BigInteger v, byte[] data) {
        if (to.isContract()) Context.call(to, "onIRC31Received", Context.getCaller(), from, id, v, data == null ? new byte[0] : data);
    }
    private void batch(Address from, Address to, BigInteger[] ids, BigInteger[] vs, byte[] data) {
        if (to.isContract()) Context.call(to, "onIRC31BatchReceived", Context.getCaller(), from, ids, vs, data == null ? new byte[0] : data);
    }
    @External
    public void setApprovalForAll(Address _operator, boolean _approved) { approvals.at(Context.getCaller()).set(_operator, _approved); }
    @External(readonly = true)
    public boolean isApprovedForAll(Address _owner, Address _operator) { return approvals.at(_owner).getOrDefault(_operator, false); }

    protected void _mint(Address to, BigInteger id, BigInteger v) {
        add(to, id, v);
        single(ZERO, to, id, v, null);
    }
    protected void _mintBatch(Address to, BigInteger[] ids, BigInteger[] vs) {
        for (int i = 0; i < ids.length; i++) add(to, ids[i], vs[i]);
        batch(ZERO, to, ids, vs, null);
    }
    protected void _burn(Address from, BigInteger id, BigInteger v) { add(from, id, v.negate()); }
    protected void _burnBatch(Address from, BigInteger[] ids, BigInteger[] vs) {
        for (int i = 0; i < ids.length; i++) add(from, ids[i], vs[i].negate());
    }
    protected void _setTokenURI(BigInteger id, String uri) { uris.set(id, uri); }
    public void TransferSingle(Address _operator, Address _from, Address _to, BigInteger _id, BigInteger _value) { }
    public void TransferBatch(Address _operator, Address _from, Address _to, byte[] _ids, byte[] _values) { }
    public void ApprovalForAll(Address _owner, Address _operator, boolean _approved) { }
    public void URI(BigInteger _id, String _value) { }
}
