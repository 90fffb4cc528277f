package com.iconloop.score.token.irc31;
import score.Address;
import java.math.BigInteger;

public interface IRC31Receiver {
    void onIRC31Received(Address _operator, Address _from, BigInteger _id, BigInteger _value, byte[] _data);
    void onIRC31BatchReceived(Address _operator, Address _from, BigInteger[] _ids, BigInteger[] _values, byte[] _data);
}
